from . import tyming, doing, filing
from .tyming import Tymist, Tymee
from .doing import Doist, Doer, DoDoer
