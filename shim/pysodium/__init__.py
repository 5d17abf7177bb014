"""Stand-in for pysodium/libsodium: Ed25519 and X25519 from libcrypto, argon2id and
xsalsa20poly1305 sealed boxes from kcrypt.  Same inputs, same bytes as libsodium."""
import hashlib, hmac, os
import kcrypt
__version__ = "0.7.18"
crypto_sign_SEEDBYTES = 32
crypto_sign_BYTES = 64
crypto_sign_PUBLICKEYBYTES = 32
crypto_sign_SECRETKEYBYTES = 64
crypto_pwhash_SALTBYTES = 16
crypto_pwhash_ALG_ARGON2I13 = 1
crypto_pwhash_ALG_ARGON2ID13 = 2
crypto_pwhash_OPSLIMIT_MIN, crypto_pwhash_MEMLIMIT_MIN = 1, 8192
crypto_pwhash_OPSLIMIT_INTERACTIVE, crypto_pwhash_MEMLIMIT_INTERACTIVE = 2, 67108864
crypto_pwhash_OPSLIMIT_MODERATE, crypto_pwhash_MEMLIMIT_MODERATE = 3, 268435456
crypto_pwhash_OPSLIMIT_SENSITIVE, crypto_pwhash_MEMLIMIT_SENSITIVE = 4, 1073741824
crypto_box_SEALBYTES = 48
RANDOM = None      # harness seam: callable(n) -> bytes

def randombytes(n):
    return RANDOM(n) if RANDOM is not None else os.urandom(n)

def crypto_sign_seed_keypair(seed):
    if len(seed) != 32:
        raise ValueError("truncated seed")
    pk = kcrypt.ed_public(seed)
    return pk, bytes(seed) + pk

def crypto_sign_keypair():
    return crypto_sign_seed_keypair(randombytes(32))

def crypto_sign_detached(msg, sk):
    if msg is None or len(sk) != 64:
        raise ValueError("invalid parameters")
    return kcrypt.ed_sign(bytes(sk)[:32], msg)

def crypto_sign_verify_detached(sig, msg, pk):
    if len(sig) != 64 or len(pk) != 32:
        raise ValueError("truncated")
    if not kcrypt.ed_verify(pk, sig, msg):
        raise ValueError("invalid signature")

_P = 2**255 - 19
def crypto_sign_pk_to_box_pk(pk):
    y = int.from_bytes(bytes(pk), "little") & ((1 << 255) - 1)
    return ((1 + y) * pow(1 - y, _P - 2, _P) % _P).to_bytes(32, "little")

def crypto_sign_sk_to_box_sk(sk):
    h = bytearray(hashlib.sha512(bytes(sk)[:32]).digest()[:32])
    h[0] &= 248
    h[31] &= 127
    h[31] |= 64
    return bytes(h)

def crypto_scalarmult_curve25519_base(sk):
    return kcrypt.x_public(sk)

def _poly1305(msg, key):
    r = int.from_bytes(key[:16], "little") & 0x0ffffffc0ffffffc0ffffffc0fffffff
    s = int.from_bytes(key[16:32], "little")
    acc, p = 0, (1 << 130) - 5
    for i in range(0, len(msg), 16):
        acc = (acc + int.from_bytes(msg[i:i+16] + b"\x01", "little")) * r % p
    return ((acc + s) & ((1 << 128) - 1)).to_bytes(16, "little")

def _boxkey(pk, sk):
    return kcrypt.hsalsa20(b"\0" * 16, kcrypt.x_shared(sk, pk))

def _secretbox(msg, nonce, key):
    ks = kcrypt.xsalsa20(32 + len(msg), nonce, key)
    c = bytes(a ^ b for a, b in zip(msg, ks[32:]))
    return _poly1305(c, ks[:32]) + c

def _secretbox_open(box, nonce, key):
    tag, c = box[:16], box[16:]
    ks = kcrypt.xsalsa20(32 + len(c), nonce, key)
    if not hmac.compare_digest(tag, _poly1305(c, ks[:32])):
        raise ValueError("invalid box")
    return bytes(a ^ b for a, b in zip(c, ks[32:]))

def crypto_box_seal(msg, pk):
    msg, pk = bytes(msg), bytes(pk)
    esk = randombytes(32)
    epk = kcrypt.x_public(esk)
    nonce = hashlib.blake2b(epk + pk, digest_size=24).digest()
    return epk + _secretbox(msg, nonce, _boxkey(pk, esk))

def crypto_box_seal_open(c, pk, sk):
    c, pk, sk = bytes(c), bytes(pk), bytes(sk)
    if len(c) < 48:
        raise ValueError("truncated")
    nonce = hashlib.blake2b(c[:32] + pk, digest_size=24).digest()
    return _secretbox_open(c[32:], nonce, _boxkey(c[:32], sk))

_kdf = {}
def crypto_pwhash(outlen, passwd, salt, opslimit, memlimit, alg=2):
    if isinstance(passwd, str):
        passwd = passwd.encode()
    if len(salt) != 16:
        raise ValueError("bad salt")
    key = (outlen, bytes(passwd), bytes(salt), opslimit, memlimit, alg)
    if key not in _kdf:
        _kdf[key] = kcrypt.argon2id(outlen, passwd, salt, opslimit, memlimit // 1024, alg)
    return _kdf[key]
