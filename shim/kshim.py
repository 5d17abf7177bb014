"""Bootstrap: makes `import keri` from a source tree work on the Python found here.

keri's install_requires (hio, lmdb, pysodium, blake3, cbor2, msgpack, multidict, ...) need
Python 3.14 or are not installed.  install() puts the stand-ins of this directory on
sys.path and registers inert stubs for the network / terminal libraries (falcon,
hio.core.http, qrcode ...), which nothing checked here runs.
"""
import importlib, importlib.abc, importlib.machinery, importlib.util, os, sys, types
HERE = os.path.dirname(os.path.abspath(__file__))

class _Meta(type):
    def __getattr__(cls, name):
        if name.startswith("__"):
            raise AttributeError(name)
        v = _mk(f"{cls.__name__}.{name}")
        setattr(cls, name, v)
        return v

def _mk(name):
    ns = {"__init__": lambda self, *a, **k: None,
          "__call__": lambda self, *a, **k: None,
          "__module__": "kshim.stub"}
    if name[:1].isupper() and name.endswith(("Error", "Exception")) or ".HTTP" in name and name.endswith(("Error", "Found", "BadRequest", "NotFound", "Unauthorized", "Forbidden")):
        return type(name.split(".")[-1], (Exception,), {})
    return _Meta(name.split(".")[-1], (), ns)

class _Stub(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name.startswith("HTTP_"):
            v = name[5:]
        elif name[:4] == "HTTP":
            v = type(name, (Exception,), {})
        else:
            v = _mk(f"{self.__name__}.{name}")
        setattr(self, name, v)
        return v

STUBS = ["falcon", "falcon.testing", "falcon.http_status", "falcon.errors", "qrcode", "multicommand", "prettytable", "mnemonic",
         "http_sfv", "apispec", "apispec.core", "apispec.yaml_utils", "hjson",
         "hio.core", "hio.core.http", "hio.core.http.clienting", "hio.core.http.serving", "hio.core.http.httping",
         "hio.core.tcp", "hio.core.tcp.clienting", "hio.core.tcp.serving", "hio.core.wiring",
         "hio.core.serial", "hio.core.serial.serialing", "hio.core.coring", "hio.core.udp", "hio.core.uxd"]

import __future__
class _Loader(importlib.machinery.SourceFileLoader):
    """Python 3.14 evaluates annotations lazily (PEP 649); 3.12 does not.  Compile keri
    modules with postponed annotations, except those whose dataclass field types are read
    at run time, which evaluate them eagerly either way."""
    def source_to_code(self, data, path, *, _optimize=-1):
        text = bytes(data).decode("utf-8") if isinstance(data, (bytes, bytearray, memoryview)) else data
        if "@dataclass" in text or "@dataclasses" in text:
            return super().source_to_code(data, path)
        return compile(text, path, "exec", flags=__future__.annotations.compiler_flag, dont_inherit=True, optimize=_optimize)
    def get_code(self, fullname):     # never use cached bytecode
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)

class _KeriFinder(importlib.abc.MetaPathFinder):
    def __init__(self, root):
        self.root = os.path.realpath(root)
    def find_spec(self, name, path=None, target=None):
        if name != "keri" and not name.startswith("keri."):
            return None
        base = os.path.join(self.root, *name.split("."))
        for p, pkg in ((os.path.join(base, "__init__.py"), True), (base + ".py", False)):
            if os.path.exists(p):
                return importlib.util.spec_from_file_location(name, p, loader=_Loader(name, p),
                    submodule_search_locations=[base] if pkg else None)
        return None

def install(repo=None, jsonschema=True):
    if getattr(sys, "_kshim", None):
        return
    sys._kshim = True
    repo = repo or os.environ.get("KERI_REPO", "/repo")
    for p in (HERE, os.path.join(repo, "src")):
        if p in sys.path:
            sys.path.remove(p)
    sys.path.insert(0, os.path.join(repo, "src"))
    sys.path.insert(0, HERE)
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, _KeriFinder(os.path.join(repo, "src")))
    for n in STUBS:
        m = _Stub(n)
        m.__path__ = []
        m.__spec__ = importlib.machinery.ModuleSpec(n, None, is_package=True)
        sys.modules[n] = m
    for n in STUBS:
        if "." in n:
            par, _, leaf = n.rpartition(".")
            if par in sys.modules:
                setattr(sys.modules[par], leaf, sys.modules[n])
    import json
    sys.modules["hjson"].loads = lambda s, **k: json.loads(s)
    sys.modules["hjson"].dumps = lambda o, **k: json.dumps(o)
    sys.modules["apispec.core"].VALID_METHODS = {2: [], 3: []}
    import kcrypto_stub
    kcrypto_stub.register()
    import semver_stub
    sys.modules["semver"] = semver_stub
    if jsonschema:
        import jsonschema_path
