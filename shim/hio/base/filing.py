"""Stand-in for hio's Filer.  Everything it creates or removes lies below one scratch
directory (KERI_SHIM_HOME, else a fresh temporary directory): a path elsewhere raises."""
import atexit, os, shutil, stat, sys, tempfile
from contextlib import contextmanager

_HOME = None
def shimHome():
    global _HOME
    if _HOME is None:
        _HOME = os.environ.get("KERI_SHIM_HOME")
        if not _HOME:
            _HOME = tempfile.mkdtemp(prefix="kerishim_")
            atexit.register(shutil.rmtree, _HOME, True)
        _HOME = os.path.realpath(_HOME)
    return _HOME

def _inside(path):
    p = os.path.realpath(path)
    if not p.startswith(shimHome() + os.sep):
        raise RuntimeError(f"shim Filer: refusing path outside scratch: {path}")
    return p

@contextmanager
def openFiler(cls=None, name="test", temp=True, reopen=True, clear=False, **kwa):
    filer = None
    cls = Filer if cls is None else cls
    try:
        filer = cls(name=name, temp=temp, reopen=reopen, clear=clear, **kwa)
        yield filer
    finally:
        if filer:
            filer.close(clear=filer.temp or clear)

class Filer:
    HeadDirPath = os.path.join(os.path.sep, "usr", "local", "var")
    TailDirPath = "hio"
    CleanTailDirPath = os.path.join("hio", "clean")
    AltHeadDirPath = "~"
    AltTailDirPath = ".hio"
    AltCleanTailDirPath = os.path.join(".hio", "clean")
    TempHeadDir = "/tmp"
    TempPrefix = "hio_"
    TempSuffix = "_test"
    Perm = stat.S_ISVTX | stat.S_IRUSR | stat.S_IWUSR | stat.S_IXUSR
    Mode = "r+"
    Fext = "text"

    def __init__(self, *, name='main', base="", temp=False, headDirPath=None, perm=None,
                 reopen=True, clear=False, reuse=False, clean=False, filed=False,
                 extensioned=False, mode=None, fext=None, **kwa):
        self.name, self.base, self.temp = name, base, True if temp else False
        self.headDirPath = headDirPath if headDirPath is not None else self.HeadDirPath
        self.perm = perm if perm is not None else self.Perm
        self.path = None
        self.filed, self.extensioned = bool(filed), bool(extensioned)
        self.mode = mode if mode is not None else self.Mode
        self.fext = fext if fext is not None else self.Fext
        self.file = None
        self.opened = False
        if reopen:
            self.reopen(clear=clear, reuse=reuse, clean=clean)

    def exists(self, name, base="", headDirPath=None, clean=False, filed=False, extensioned=False, fext=None):
        return os.path.exists(self._where(name, base, headDirPath, clean, filed, extensioned, fext, False))

    def _where(self, name, base, headDirPath, clean, filed, extensioned, fext, temp):
        tail = self.CleanTailDirPath if clean else self.TailDirPath
        if temp:
            head = tempfile.mkdtemp(prefix=self.TempPrefix, suffix=self.TempSuffix, dir=shimHome())
        else:
            head = os.path.join(shimHome(), (headDirPath or self.headDirPath or self.HeadDirPath).lstrip("/~"))
        path = os.path.join(head, tail, base or "", name)
        if filed:
            root, ext = os.path.splitext(path)
            if not ext:
                path = f"{path}.{fext or self.fext}"
        return os.path.abspath(path)

    def reopen(self, temp=None, headDirPath=None, perm=None, clear=False, reuse=False,
               clean=False, mode=None, fext=None, **kwa):
        if temp is not None:
            self.temp = bool(temp)
        if headDirPath is not None:
            self.headDirPath = headDirPath
        if perm is not None:
            self.perm = perm
        if mode is not None:
            self.mode = mode
        if fext is not None:
            self.fext = fext
        if self.opened:
            self.close()
        if not reuse or not self.path or not os.path.exists(self.path):
            if clear and self.path and os.path.exists(self.path):
                self._clearPath()
            self.path, self.file = self.remake(name=self.name, base=self.base, temp=self.temp,
                headDirPath=self.headDirPath, perm=self.perm, clean=clean, filed=self.filed,
                extensioned=self.extensioned, mode=self.mode, fext=self.fext)
        elif self.filed:
            self.file = open(self.path, self.mode)
        self.opened = True if not self.filed else bool(self.file and not self.file.closed)
        return self.opened

    def remake(self, *, name="", base="", temp=False, headDirPath=None, perm=None, clean=False,
               filed=False, extensioned=False, mode=None, fext=None, **kwa):
        path = self._where(name, base, headDirPath, clean, filed, extensioned, fext, temp)
        _inside(path)
        file = None
        if filed:
            os.makedirs(os.path.dirname(path), exist_ok=True)
            file = open(path, mode or self.mode) if os.path.exists(path) else open(path, "w+b" if "b" in (mode or self.mode) else "w+")
        else:
            os.makedirs(path, exist_ok=True)
            os.chmod(path, perm or self.perm)
        return path, file

    def close(self, clear=False):
        if self.filed and self.file:
            try:
                self.file.close()
            finally:
                pass
        self.opened = False
        if clear:
            self._clearPath()
        return True

    def _clearPath(self):
        if self.path and os.path.exists(self.path):
            if "lmdb" in sys.modules:
                sys.modules["lmdb"].disk_clear(self.path)
            p = _inside(self.path)
            if os.path.isfile(p):
                os.remove(p)
            else:
                shutil.rmtree(p)

class FilerDoer:
    pass
