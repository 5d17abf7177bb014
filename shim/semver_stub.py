import re
class Version:
    _R = re.compile(r"^(\d+)\.(\d+)\.(\d+)(?:-([0-9A-Za-z.-]+))?(?:\+([0-9A-Za-z.-]+))?$")
    def __init__(self, major=0, minor=0, patch=0, prerelease=None, build=None):
        self.major, self.minor, self.patch, self.prerelease, self.build = int(major), int(minor), int(patch), prerelease, build
    @classmethod
    def parse(cls, s):
        if isinstance(s, bytes):
            s = s.decode()
        m = cls._R.match(s)
        if not m:
            raise ValueError(f"{s} is not valid SemVer string")
        return cls(*m.groups())
    @classmethod
    def is_valid(cls, s):
        return bool(cls._R.match(s))
    def _pre(self):
        if not self.prerelease:
            return (1,)
        return (0, tuple((0, int(p), "") if p.isdigit() else (1, 0, p) for p in self.prerelease.split(".")))
    def _k(self):
        return (self.major, self.minor, self.patch, self._pre())
    def compare(self, o):
        o = o if isinstance(o, Version) else Version.parse(o)
        return (self._k() > o._k()) - (self._k() < o._k())
    def __eq__(self, o): return self.compare(o) == 0
    def __lt__(self, o): return self.compare(o) < 0
    def __le__(self, o): return self.compare(o) <= 0
    def __gt__(self, o): return self.compare(o) > 0
    def __ge__(self, o): return self.compare(o) >= 0
    def __hash__(self): return hash(self._k())
    def __str__(self):
        return f"{self.major}.{self.minor}.{self.patch}" + (f"-{self.prerelease}" if self.prerelease else "") + (f"+{self.build}" if self.build else "")
    def to_dict(self): return dict(major=self.major, minor=self.minor, patch=self.patch, prerelease=self.prerelease, build=self.build)
VersionInfo = Version
def compare(a, b):
    return Version.parse(a).compare(b)
def parse(s):
    return Version.parse(s)
