from .decking import Deck
from .hicting import Hict, Mict
from . import decking, hicting, ogling, helping
from .helping import NonStringIterable, NonStringSequence, isNonStringIterable, isNonStringSequence
from .ogling import initOgler
ogler = ogling.initOgler(prefix='hio', syslogged=False)
class Mixin:
    def __init__(self, *pa, **kwa):
        pass
