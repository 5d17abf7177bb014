"""ctypes access to crypt.c (compiled on demand) and to libcrypto's Ed25519/X25519/ECDSA."""
import ctypes, ctypes.util, hashlib, os, subprocess, sys, tempfile
_here = os.path.dirname(os.path.abspath(__file__))
_src = os.path.join(_here, "csrc", "crypt.c")

def _build():
    with open(_src, "rb") as f:
        tag = hashlib.sha256(f.read()).hexdigest()[:16]
    cands = [os.path.join(_here, "build"), os.path.join(tempfile.gettempdir(), f"kshim_build_{os.getuid()}")]
    for d in cands:
        so = os.path.join(d, f"crypt_{tag}.so")
        if os.path.exists(so):
            return ctypes.CDLL(so)
    err = None
    for d in cands:
        try:
            os.makedirs(d, exist_ok=True)
            so = os.path.join(d, f"crypt_{tag}.so")
            tmp = f"{so}.{os.getpid()}"
            for cc in ("gcc", "clang", "cc"):
                try:
                    r = subprocess.run([cc, "-O2", "-shared", "-fPIC", "-o", tmp, _src], capture_output=True)
                except FileNotFoundError:
                    continue
                if r.returncode == 0:
                    os.replace(tmp, so)
                    return ctypes.CDLL(so)
                err = r.stderr
        except OSError as ex:
            err = ex
    raise RuntimeError(f"cannot build {_src}: {err}")

C = _build()
C.k_blake3.argtypes = [ctypes.c_char_p, ctypes.c_size_t, ctypes.c_char_p, ctypes.c_size_t]
C.k_argon2id.argtypes = [ctypes.c_char_p, ctypes.c_uint32, ctypes.c_char_p, ctypes.c_uint32, ctypes.c_char_p, ctypes.c_uint32, ctypes.c_uint32, ctypes.c_uint32, ctypes.c_int]

def blake3(data, n=32):
    out = ctypes.create_string_buffer(n)
    C.k_blake3(bytes(data), len(data), out, n)
    return out.raw

def argon2id(outlen, passwd, salt, t, mkib, type=2):
    out = ctypes.create_string_buffer(outlen)
    if C.k_argon2id(out, outlen, bytes(passwd), len(passwd), bytes(salt), len(salt), t, mkib, type) != 0:
        raise MemoryError
    return out.raw

def hsalsa20(inp, key):
    out = ctypes.create_string_buffer(32)
    C.k_hsalsa20(out, bytes(inp), bytes(key))
    return out.raw

def xsalsa20(n, nonce, key):
    out = ctypes.create_string_buffer(n)
    C.k_xsalsa20(out, ctypes.c_size_t(n), bytes(nonce), bytes(key))
    return out.raw

# libcrypto (the same library Python's own ssl/hashlib modules use)
L = ctypes.CDLL(ctypes.util.find_library("crypto") or "libcrypto.so.3")
_vp = ctypes.c_void_p
for f, a in (("EVP_PKEY_new_raw_private_key", [ctypes.c_int, _vp, ctypes.c_char_p, ctypes.c_size_t]),
             ("EVP_PKEY_new_raw_public_key", [ctypes.c_int, _vp, ctypes.c_char_p, ctypes.c_size_t])):
    getattr(L, f).restype = _vp
    getattr(L, f).argtypes = a
L.EVP_MD_CTX_new.restype = _vp
L.EVP_MD_CTX_free.argtypes = [_vp]
L.EVP_PKEY_free.argtypes = [_vp]
L.EVP_PKEY_get_raw_public_key.argtypes = [_vp, _vp, _vp]
L.EVP_DigestSignInit.argtypes = [_vp, _vp, _vp, _vp, _vp]
L.EVP_DigestVerifyInit.argtypes = [_vp, _vp, _vp, _vp, _vp]
L.EVP_DigestSign.argtypes = [_vp, _vp, _vp, ctypes.c_char_p, ctypes.c_size_t]
L.EVP_DigestVerify.argtypes = [_vp, ctypes.c_char_p, ctypes.c_size_t, ctypes.c_char_p, ctypes.c_size_t]
L.EVP_PKEY_CTX_new.restype = _vp
L.EVP_PKEY_CTX_new.argtypes = [_vp, _vp]
L.EVP_PKEY_CTX_free.argtypes = [_vp]
L.EVP_PKEY_derive_init.argtypes = [_vp]
L.EVP_PKEY_derive_set_peer.argtypes = [_vp, _vp]
L.EVP_PKEY_derive.argtypes = [_vp, _vp, _vp]
ED25519, X25519 = 1087, 1034

def _pub(pkey, n=32):
    out = ctypes.create_string_buffer(n)
    ln = ctypes.c_size_t(n)
    L.EVP_PKEY_get_raw_public_key(pkey, out, ctypes.byref(ln))
    return out.raw

_pubs, _sigs, _vers = {}, {}, {}

def ed_public(seed):
    seed = bytes(seed)
    if seed not in _pubs:
        k = L.EVP_PKEY_new_raw_private_key(ED25519, None, seed, 32)
        _pubs[seed] = _pub(k)
        L.EVP_PKEY_free(k)
    return _pubs[seed]

def ed_sign(seed, msg):
    seed, msg = bytes(seed), bytes(msg)
    key = (seed, msg)
    if key in _sigs:
        return _sigs[key]
    k = L.EVP_PKEY_new_raw_private_key(ED25519, None, seed, 32)
    c = L.EVP_MD_CTX_new()
    L.EVP_DigestSignInit(c, None, None, None, k)
    out = ctypes.create_string_buffer(64)
    ln = ctypes.c_size_t(64)
    ok = L.EVP_DigestSign(c, out, ctypes.byref(ln), msg, len(msg))
    L.EVP_MD_CTX_free(c)
    L.EVP_PKEY_free(k)
    if ok != 1:
        raise ValueError("sign failed")
    if len(_sigs) < 200000:
        _sigs[key] = out.raw
    return out.raw

def ed_verify(pub, sig, msg):
    pub, sig, msg = bytes(pub), bytes(sig), bytes(msg)
    key = (pub, sig, msg)
    if key in _vers:
        return _vers[key]
    k = L.EVP_PKEY_new_raw_public_key(ED25519, None, pub, 32)
    if not k:
        return False
    c = L.EVP_MD_CTX_new()
    L.EVP_DigestVerifyInit(c, None, None, None, k)
    ok = L.EVP_DigestVerify(c, sig, len(sig), msg, len(msg)) == 1
    L.EVP_MD_CTX_free(c)
    L.EVP_PKEY_free(k)
    if len(_vers) < 200000:
        _vers[key] = ok
    return ok

def x_public(prik):
    k = L.EVP_PKEY_new_raw_private_key(X25519, None, bytes(prik), 32)
    p = _pub(k)
    L.EVP_PKEY_free(k)
    return p

def x_shared(prik, pubk):
    k = L.EVP_PKEY_new_raw_private_key(X25519, None, bytes(prik), 32)
    p = L.EVP_PKEY_new_raw_public_key(X25519, None, bytes(pubk), 32)
    c = L.EVP_PKEY_CTX_new(k, None)
    L.EVP_PKEY_derive_init(c)
    L.EVP_PKEY_derive_set_peer(c, p)
    out = ctypes.create_string_buffer(32)
    ln = ctypes.c_size_t(32)
    ok = L.EVP_PKEY_derive(c, out, ctypes.byref(ln))
    L.EVP_PKEY_CTX_free(c)
    L.EVP_PKEY_free(k)
    L.EVP_PKEY_free(p)
    if ok != 1:
        raise ValueError("derive failed")
    return out.raw
