"""Small CBOR codec (RFC 8949) with cbor2's dumps/loads defaults."""
import io, struct
__version__ = "6.1.3"
class CBORError(Exception): pass
class CBORDecodeError(CBORError, ValueError): pass
class CBORDecodeValueError(CBORDecodeError): pass
class CBORDecodeEOF(CBORDecodeError, EOFError): pass
class CBOREncodeError(CBORError): pass
class CBOREncodeTypeError(CBOREncodeError, TypeError): pass

def _head(out, major, n):
    m = major << 5
    if n < 24:
        out.append(m | n)
    elif n < 0x100:
        out += struct.pack(">BB", m | 24, n)
    elif n < 0x10000:
        out += struct.pack(">BH", m | 25, n)
    elif n < 0x100000000:
        out += struct.pack(">BL", m | 26, n)
    else:
        out += struct.pack(">BQ", m | 27, n)

def _enc(out, o):
    if o is None:
        out.append(0xf6)
    elif o is True:
        out.append(0xf5)
    elif o is False:
        out.append(0xf4)
    elif isinstance(o, int):
        if -(1 << 64) <= o < (1 << 64):
            _head(out, 0, o) if o >= 0 else _head(out, 1, -1 - o)
        else:
            n = o if o >= 0 else -1 - o
            b = n.to_bytes((n.bit_length() + 7) // 8, "big")
            out.append(0xc2 if o >= 0 else 0xc3)
            _head(out, 2, len(b))
            out += b
    elif isinstance(o, float):
        if o != o:
            out += b"\xf9\x7e\x00"
        elif o in (float("inf"), float("-inf")):
            out += b"\xf9\x7c\x00" if o > 0 else b"\xf9\xfc\x00"
        else:
            out += struct.pack(">Bd", 0xfb, o)
    elif isinstance(o, str):
        b = o.encode("utf-8")
        _head(out, 3, len(b))
        out += b
    elif isinstance(o, (bytes, bytearray, memoryview)):
        b = bytes(o)
        _head(out, 2, len(b))
        out += b
    elif isinstance(o, (list, tuple)):
        _head(out, 4, len(o))
        for x in o:
            _enc(out, x)
    elif hasattr(o, "items"):
        items = list(o.items())
        _head(out, 5, len(items))
        for k, v in items:
            _enc(out, k)
            _enc(out, v)
    else:
        raise CBOREncodeTypeError(f"cannot serialize type {type(o)}")

def dumps(obj, **kwa):
    out = bytearray()
    _enc(out, obj)
    return bytes(out)

class _Dec:
    def __init__(self, b):
        self.b, self.i = b, 0
    def take(self, n):
        if self.i + n > len(self.b):
            raise CBORDecodeEOF("premature end of stream")
        r = self.b[self.i:self.i + n]
        self.i += n
        return r
    def arg(self, ai):
        if ai < 24:
            return ai
        if ai == 31:
            return None
        if ai > 27:
            raise CBORDecodeValueError("bad length")
        return int.from_bytes(self.take(1 << (ai - 24)), "big")
    def item(self, brk=False):
        ib = self.take(1)[0]
        major, ai = ib >> 5, ib & 31
        if ib == 0xff:
            if brk:
                return _BREAK
            raise CBORDecodeValueError("unexpected break")
        if major == 7:
            if ai == 20: return False
            if ai == 21: return True
            if ai in (22, 23): return None
            if ai == 25: return struct.unpack(">e", self.take(2))[0]
            if ai == 26: return struct.unpack(">f", self.take(4))[0]
            if ai == 27: return struct.unpack(">d", self.take(8))[0]
            raise CBORDecodeValueError("bad simple value")
        n = self.arg(ai)
        if major == 0:
            if n is None: raise CBORDecodeValueError("bad int")
            return n
        if major == 1:
            if n is None: raise CBORDecodeValueError("bad int")
            return -1 - n
        if major in (2, 3):
            if n is None:
                parts = []
                while (p := self.item(True)) is not _BREAK:
                    parts.append(p)
                return (b"" if major == 2 else "").join(parts)
            raw = self.take(n)
            if major == 2:
                return bytes(raw)
            try:
                return bytes(raw).decode("utf-8")
            except UnicodeDecodeError as ex:
                raise CBORDecodeValueError("error decoding unicode string") from ex
        if major == 4:
            r = []
            if n is None:
                while (p := self.item(True)) is not _BREAK:
                    r.append(p)
            else:
                for _ in range(n):
                    r.append(self.item())
            return r
        if major == 5:
            r = {}
            j = 0
            while n is None or j < n:
                k = self.item(True)
                if k is _BREAK:
                    break
                if isinstance(k, list):
                    k = tuple(k)
                if isinstance(k, dict):
                    raise CBORDecodeValueError("unhashable key")
                r[k] = self.item()
                j += 1
            return r
        v = self.item()
        if n in (2, 3) and isinstance(v, bytes):
            x = int.from_bytes(v, "big")
            return x if n == 2 else -1 - x
        return v
_BREAK = object()

def loads(b, **kwa):
    d = _Dec(bytes(b))
    try:
        return d.item()
    except RecursionError as ex:
        raise CBORDecodeError("too deep") from ex
def load(fp, **kwa):
    return loads(fp.read())
def dump(obj, fp, **kwa):
    fp.write(dumps(obj))
