from collections.abc import Iterable, Sequence
from abc import ABCMeta
class NonStringIterable(metaclass=ABCMeta):
    @classmethod
    def __subclasshook__(cls, C):
        if cls is NonStringIterable:
            return (not issubclass(C, (str, bytes)) and issubclass(C, Iterable)) or NotImplemented
        return NotImplemented
class NonStringSequence(metaclass=ABCMeta):
    @classmethod
    def __subclasshook__(cls, C):
        if cls is NonStringSequence:
            return (not issubclass(C, (str, bytes)) and issubclass(C, Sequence)) or NotImplemented
        return NotImplemented
def isNonStringIterable(obj):
    return not isinstance(obj, (str, bytes)) and isinstance(obj, Iterable)
def isNonStringSequence(obj):
    return not isinstance(obj, (str, bytes)) and isinstance(obj, Sequence)
