from collections import deque
import inspect
import types
from .tyming import Tymist, Tymee

class Doist(Tymist):
    def __init__(self, real=False, limit=None, doers=None, temp=None, name='doist', **kwa):
        super().__init__(**kwa)
        self.name, self.real, self.limit, self.temp = name, real, limit, temp
        self.doers = doers if doers is not None else []
        self.deeds = deque()
        self.done = None
    def do(self, doers=None, limit=None, tyme=None, temp=None):
        if doers is not None:
            self.doers = list(doers)
        if limit is not None:
            self.limit = limit
        if tyme is not None:
            self.tyme = tyme
        try:
            self.enter(temp=temp)
            start = self.tyme
            while True:
                self.recur()
                if not self.deeds:
                    self.done = True
                    break
                if self.limit and self.tyme - start >= self.limit:
                    break
        except (KeyboardInterrupt, SystemExit):
            raise
        finally:
            self.exit()
    def enter(self, doers=None, temp=None, deeds=None):
        self.done = False
        doers = self.doers if doers is None else doers
        deeds = self.deeds if deeds is None else deeds
        for doer in doers:
            doer.done = None
            doer.temp = temp if temp is not None else getattr(doer, "temp", None)
            opts = getattr(doer, "opts", None) or {}
            dog = doer(tymth=self.tymen(), tock=doer.tock, **opts)
            try:
                next(dog)
            except StopIteration as ex:
                doer.done = ex.value
            else:
                deeds.append((dog, self.tyme, doer))
                doer.done = False
        return deeds
    def recur(self, deeds=None, tock=None):
        deeds = self.deeds if deeds is None else deeds
        for _ in range(len(deeds)):
            dog, retyme, doer = deeds.popleft()
            if self.tyme >= retyme:
                try:
                    tock = dog.send(self.tyme)
                except StopIteration as ex:
                    doer.done = ex.value
                else:
                    deeds.append((dog, max(retyme + tock, self.tyme), doer))
            else:
                deeds.append((dog, retyme, doer))
        self.tick()
        return not deeds
    def exit(self, deeds=None):
        deeds = self.deeds if deeds is None else deeds
        while deeds:
            dog, _, doer = deeds.pop()
            try:
                dog.close()
            except StopIteration:
                pass
    def extend(self, doers):
        self.doers.extend(doers)
        self.enter(doers=doers)
    def remove(self, doers):
        for d in doers:
            self.doers.remove(d)
        for dog, rt, doer in list(self.deeds):
            if doer in doers:
                self.deeds.remove((dog, rt, doer))
                dog.close()

class Doer(Tymee):
    def __init__(self, *, tock=0.0, opts=None, temp=None, **kwa):
        super().__init__(**kwa)
        self.done = None
        self._tock = float(tock)
        self.opts = opts if opts is not None else {}
        self.temp = temp
    @property
    def tock(self):
        return self._tock
    @tock.setter
    def tock(self, t):
        self._tock = abs(float(t))
    def __call__(self, **kwa):
        return self.do(**kwa)
    def do(self, tymth, *, tock=0.0, temp=None, **opts):
        try:
            self.wind(tymth)
            self.tock = tock
            self.done = False
            try:
                self.enter(temp=temp)
            except TypeError:
                self.enter()
            if inspect.isgeneratorfunction(self.recur):
                self.done = yield from self.recur()
            else:
                while not self.done:
                    tyme = yield self.tock
                    self.done = self.recur(tyme=tyme)
            self.clean()
        except GeneratorExit:
            self.close()
        except Exception:
            self.abort(None)
            raise
        finally:
            self.exit()
        return self.done
    def enter(self, *, temp=None):
        pass
    def recur(self, tyme):
        return False
    def clean(self):
        pass
    def close(self):
        pass
    def abort(self, ex):
        pass
    def exit(self):
        pass

class DoDoer(Doer):
    def __init__(self, doers=None, always=False, **kwa):
        super().__init__(**kwa)
        self.doers = doers if doers is not None else []
        self.always = always
        self.deeds = None
    def enter(self, *, doers=None, temp=None, deeds=None):
        self.done = False
        if deeds is None:
            if self.deeds is None:
                self.deeds = deque()
            deeds = self.deeds
        doers = self.doers if doers is None else doers
        for doer in doers:
            doer.done = None
            opts = getattr(doer, "opts", None) or {}
            dog = doer(tymth=self.tymth, tock=doer.tock, **opts)
            try:
                next(dog)
            except StopIteration as ex:
                doer.done = ex.value
            else:
                deeds.append((dog, self.tyme, doer))
                doer.done = False
        return deeds
    def recur(self, tyme, deeds=None):
        deeds = self.deeds if deeds is None else deeds
        for _ in range(len(deeds)):
            if not deeds:
                break
            dog, retyme, doer = deeds.popleft()
            if tyme >= retyme:
                try:
                    tock = dog.send(tyme)
                except StopIteration as ex:
                    doer.done = ex.value
                else:
                    deeds.append((dog, max(retyme + (tock or 0.0), tyme), doer))
            else:
                deeds.append((dog, retyme, doer))
        return (not deeds) and not self.always
    def exit(self, deeds=None):
        deeds = self.deeds if deeds is None else deeds
        while deeds:
            dog, _, doer = deeds.pop()
            dog.close()
    def extend(self, doers):
        self.doers.extend(doers)
        self.enter(doers=doers)
    def remove(self, doers):
        for d in doers:
            self.doers.remove(d)
        for deed in list(self.deeds or ()):
            if deed[2] in doers:
                try:
                    self.deeds.remove(deed)
                except ValueError:
                    continue
                try:
                    deed[0].close()
                except (StopIteration, ValueError):
                    pass

def doize(*, tock=0.0, **opts):
    def deco(f):
        f.done, f.tock, f.temp, f.opts = None, tock, None, opts
        return f
    return deco

def doify(f, *, name=None, tock=0.0, **opts):
    """copy of function or bound method f with doer attributes"""
    def make(fn):
        g = types.FunctionType(fn.__code__, fn.__globals__, name or fn.__name__, fn.__defaults__, fn.__closure__)
        g.__kwdefaults__ = fn.__kwdefaults__
        g.done, g.tock, g.temp, g.opts = None, tock, None, dict(opts)
        return g
    if inspect.ismethod(f):
        class _M:
            pass
        bound = types.MethodType(make(f.__func__), f.__self__)
        class Bound:
            def __init__(self):
                self.done, self.tock, self.temp, self.opts = None, tock, None, dict(opts)
                self.__func__, self.__self__ = f.__func__, f.__self__
                self.__name__ = name or f.__name__
            def __call__(self, *pa, **kwa):
                return bound(*pa, **kwa)
            def __eq__(self, other):
                return self is other or (isinstance(other, Bound) and self.__func__ is other.__func__ and self.__self__ is other.__self__)
            def __hash__(self):
                return hash((id(self.__func__), id(self.__self__)))
        return Bound()
    return make(f)
