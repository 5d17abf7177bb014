"""Stand-in for hio (needs Python 3.14, not installed here): only what keri uses."""
__version__ = "0.7.19"
from . import help, base
