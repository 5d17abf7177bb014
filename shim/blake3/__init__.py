import kcrypt
__version__ = "1.0.8"
class blake3:
    name, digest_size, block_size = "blake3", 32, 64
    def __init__(self, data=b"", **kwa):
        self._d = bytearray(data)
    def update(self, data):
        self._d += data
        return self
    def digest(self, length=32, *, seek=0):
        return kcrypt.blake3(self._d, length + seek)[seek:]
    def hexdigest(self, length=32, *, seek=0):
        return self.digest(length, seek=seek).hex()
