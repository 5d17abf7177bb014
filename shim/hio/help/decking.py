from collections import deque
class Deck(deque):
    """deque whose push/pull treat None as absent"""
    def __repr__(self):
        return "Deck({})".format(super().__repr__()[6:-1] if len(self) else "")
    def push(self, elem):
        if elem is not None:
            self.append(elem)
    def pull(self, emptive=True):
        try:
            return self.popleft()
        except IndexError:
            if not emptive:
                raise
            return None
    def pop(self, emptive=False):
        try:
            return super().pop()
        except IndexError:
            if not emptive:
                raise
            return None
