class Tymist:
    Tock = 0.03125
    def __init__(self, tyme=0.0, tock=None, **kwa):
        self.tyme = float(tyme)
        self._tock = float(tock) if tock is not None else self.Tock
    @property
    def tock(self):
        return self._tock
    @tock.setter
    def tock(self, t):
        self._tock = abs(float(t))
    def tick(self, tock=None):
        self.tyme += float(tock if tock is not None else self.tock)
        return self.tyme
    turn = tick
    def tymen(self):
        return lambda: self.tyme
class Tymee:
    def __init__(self, tymth=None, **kwa):
        self._tymth = None
        if tymth is not None:
            self.wind(tymth)
    @property
    def tyme(self):
        return self.tymth() if self.tymth else None
    @property
    def tymth(self):
        return self._tymth
    def wind(self, tymth):
        self._tymth = tymth
class Tymer(Tymee):
    def __init__(self, duration=0.0, start=None, **kwa):
        self._start = 0.0
        self.duration = duration
        super().__init__(**kwa)
        if self._tymth:
            self.restart(start=start)
    def wind(self, tymth):
        super().wind(tymth)
        self._start = self.tyme
    def start(self, duration=None, start=None):
        self._start = self.tyme if start is None else start
        if duration is not None:
            self.duration = duration
        return self._start
    restart = start
    @property
    def elapsed(self):
        return self.tyme - self._start
    @property
    def remaining(self):
        return max(0.0, self._start + self.duration - self.tyme)
    @property
    def expired(self):
        return self.tyme >= self._start + self.duration
