"""The part of pyca/cryptography keri uses: ECDSA on secp256r1/k1 (pure Python, deterministic
nonce), Ed25519 handled by pysodium."""
import hashlib, hmac, sys, types

class InvalidSignature(Exception):
    pass

class SHA256:
    name = "sha256"

class _Curve:
    pass
class SECP256R1(_Curve):
    name = "secp256r1"
    p = 0xffffffff00000001000000000000000000000000ffffffffffffffffffffffff
    a = p - 3
    b = 0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b
    n = 0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551
    G = (0x6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296,
         0x4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5)
class SECP256K1(_Curve):
    name = "secp256k1"
    p = 2**256 - 2**32 - 977
    a, b = 0, 7
    n = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
    G = (0x79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798,
         0x483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8)

def _add(c, P, Q):
    if P is None: return Q
    if Q is None: return P
    if P[0] == Q[0]:
        if (P[1] + Q[1]) % c.p == 0:
            return None
        l = (3 * P[0] * P[0] + c.a) * pow(2 * P[1], -1, c.p) % c.p
    else:
        l = (Q[1] - P[1]) * pow(Q[0] - P[0], -1, c.p) % c.p
    x = (l * l - P[0] - Q[0]) % c.p
    return (x, (l * (P[0] - x) - P[1]) % c.p)

def _mul(c, k, P):
    R = None
    while k:
        if k & 1:
            R = _add(c, R, P)
        P = _add(c, P, P)
        k >>= 1
    return R

class ECDSA:
    def __init__(self, algorithm):
        self.algorithm = algorithm

class EllipticCurvePublicKey:
    def __init__(self, curve, pt):
        self.curve, self.pt = curve, pt
    @classmethod
    def from_encoded_point(cls, curve, data):
        data = bytes(data)
        if len(data) == 33 and data[0] in (2, 3):
            x = int.from_bytes(data[1:], "big")
            y2 = (x**3 + curve.a * x + curve.b) % curve.p
            y = pow(y2, (curve.p + 1) // 4, curve.p)
            if y * y % curve.p != y2 or x >= curve.p:
                raise ValueError("Invalid EC key.")
            if y & 1 != data[0] & 1:
                y = curve.p - y
            return cls(curve, (x, y))
        raise ValueError("Unsupported elliptic curve point type")
    def public_bytes(self, encoding, format):
        return bytes([2 + (self.pt[1] & 1)]) + self.pt[0].to_bytes(32, "big")
    def verify(self, der, data, alg):
        c = self.curve
        r, s = decode_dss_signature(der)
        if not (0 < r < c.n and 0 < s < c.n):
            raise InvalidSignature
        z = int.from_bytes(hashlib.sha256(bytes(data)).digest(), "big")
        w = pow(s, -1, c.n)
        P = _add(c, _mul(c, z * w % c.n, c.G), _mul(c, r * w % c.n, self.pt))
        if P is None or P[0] % c.n != r:
            raise InvalidSignature

class EllipticCurvePrivateKey:
    def __init__(self, d, curve):
        self.d, self.curve = d, curve
    def public_key(self):
        return EllipticCurvePublicKey(self.curve, _mul(self.curve, self.d, self.curve.G))
    def sign(self, data, alg):
        c = self.curve
        z = int.from_bytes(hashlib.sha256(bytes(data)).digest(), "big")
        ctr = 0
        while True:
            k = int.from_bytes(hmac.new(self.d.to_bytes(32, "big"), bytes(data) + bytes([ctr]), "sha256").digest(), "big") % c.n
            ctr += 1
            if not k:
                continue
            r = _mul(c, k, c.G)[0] % c.n
            s = pow(k, -1, c.n) * (z + r * self.d) % c.n
            if r and s:
                return encode_dss_signature(r, s)

def derive_private_key(d, curve, backend=None):
    if not 0 < d < curve.n:
        raise ValueError("private value out of range")
    return EllipticCurvePrivateKey(d, curve)

def encode_dss_signature(r, s):
    def i(n):
        b = n.to_bytes(n.bit_length() // 8 + 1, "big")
        return bytes([2, len(b)]) + b
    body = i(r) + i(s)
    return bytes([0x30]) + (bytes([len(body)]) if len(body) < 128 else bytes([0x81, len(body)])) + body

def decode_dss_signature(der):
    o = 2 if der[1] < 128 else 3
    n = der[o + 1]
    r = int.from_bytes(der[o + 2:o + 2 + n], "big")
    o += 2 + n
    return r, int.from_bytes(der[o + 2:o + 2 + der[o + 1]], "big")

class Encoding:
    X962, PEM, DER, OpenSSH, Raw = "X962", "PEM", "DER", "OpenSSH", "Raw"
class PublicFormat:
    CompressedPoint, UncompressedPoint, OpenSSH, Raw = 1, 2, 3, 4
class PrivateFormat:
    OpenSSH, Raw, PKCS8 = 1, 2, 3
class NoEncryption:
    pass

def register():
    def mod(name, **kw):
        m = types.ModuleType(name)
        m.__path__ = []
        m.__dict__.update(kw)
        sys.modules[name] = m
        if "." in name:
            par, _, leaf = name.rpartition(".")
            setattr(sys.modules[par], leaf, m)
        return m
    mod("cryptography", __version__="50.0.0")
    mod("cryptography.exceptions", InvalidSignature=InvalidSignature)
    mod("cryptography.hazmat")
    mod("cryptography.hazmat.primitives")
    mod("cryptography.hazmat.primitives.hashes", SHA256=SHA256)
    mod("cryptography.hazmat.primitives.serialization", Encoding=Encoding, PublicFormat=PublicFormat, PrivateFormat=PrivateFormat, NoEncryption=NoEncryption)
    mod("cryptography.hazmat.primitives.asymmetric")
    mod("cryptography.hazmat.primitives.asymmetric.ec", SECP256R1=SECP256R1, SECP256K1=SECP256K1, ECDSA=ECDSA,
        EllipticCurvePublicKey=EllipticCurvePublicKey, EllipticCurvePrivateKey=EllipticCurvePrivateKey, derive_private_key=derive_private_key)
    mod("cryptography.hazmat.primitives.asymmetric.utils", encode_dss_signature=encode_dss_signature, decode_dss_signature=decode_dss_signature)
    mod("cryptography.hazmat.primitives.asymmetric.ed25519", Ed25519PrivateKey=type("Ed25519PrivateKey", (), {}), Ed25519PublicKey=type("Ed25519PublicKey", (), {}))
