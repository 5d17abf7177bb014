"""jsonschema 4.26.0 (keri's pin) is installed in the verification tools' venv for this same
Python version; expose just it and its dependencies."""
import glob, importlib, os, sys
_site = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
try:
    import jsonschema
except ImportError:
    class _Finder:
        names = {"jsonschema", "referencing", "rpds", "attr", "attrs", "jsonschema_specifications", "typing_extensions"}
        def find_spec(self, name, path=None, target=None):
            if name.split(".")[0] in self.names and path is None:
                from importlib.machinery import PathFinder
                return PathFinder.find_spec(name, [_site])
    sys.meta_path.append(_Finder())
