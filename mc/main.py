import importlib
import os
import shutil
import sys
import tempfile


def main():
    pid = sys.argv[1]
    home = tempfile.mkdtemp(prefix="kerishim_")      # everything the code puts in files, also in child processes
    os.environ["KERI_SHIM_HOME"] = home
    try:
        mod = importlib.import_module(f"mc.props.{pid.lower()}")
        code = mod.check()
    finally:
        shutil.rmtree(home, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)


if __name__ == "__main__":
    main()
