#!/bin/sh
# compile the few C parts of the stand-ins; everything else is plain Python
cd "$(dirname "$0")" && exec /opt/venv/bin/python -c "
import sys; sys.path.insert(0, 'shim'); import kshim; kshim.install()
import pysodium, lmdb; print('ready')"
