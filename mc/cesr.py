"""CESR primitives as specified: the code tables, and an encoder and decoder that work on bit strings.  Written
independently of keri.core; nothing in here imports it."""

# name: code, chars after it, of these padding, full size, lead bytes
MATTER = {
    "Ed25519_Seed": ("A", 0, 0, 44, 0),
    "Ed25519N": ("B", 0, 0, 44, 0),
    "X25519": ("C", 0, 0, 44, 0),
    "Ed25519": ("D", 0, 0, 44, 0),
    "Blake3_256": ("E", 0, 0, 44, 0),
    "Blake2b_256": ("F", 0, 0, 44, 0),
    "Blake2s_256": ("G", 0, 0, 44, 0),
    "SHA3_256": ("H", 0, 0, 44, 0),
    "SHA2_256": ("I", 0, 0, 44, 0),
    "ECDSA_256k1_Seed": ("J", 0, 0, 44, 0),
    "Ed448_Seed": ("K", 0, 0, 76, 0),
    "X448": ("L", 0, 0, 76, 0),
    "Short": ("M", 0, 0, 4, 0),
    "Big": ("N", 0, 0, 12, 0),
    "X25519_Private": ("O", 0, 0, 44, 0),
    "X25519_Cipher_Seed": ("P", 0, 0, 124, 0),
    "ECDSA_256r1_Seed": ("Q", 0, 0, 44, 0),
    "Tall": ("R", 0, 0, 8, 0),
    "Large": ("S", 0, 0, 16, 0),
    "Great": ("T", 0, 0, 20, 0),
    "Vast": ("U", 0, 0, 24, 0),
    "Label1": ("V", 0, 0, 4, 1),
    "Label2": ("W", 0, 0, 4, 0),
    "Tag3": ("X", 3, 0, 4, 0),
    "Tag7": ("Y", 7, 0, 8, 0),
    "Tag11": ("Z", 11, 0, 12, 0),
    "Salt_256": ("a", 0, 0, 44, 0),
    "GramHead": ("b", 3, 0, 8, 0),
    "Salt_128": ("0A", 0, 0, 24, 0),
    "Ed25519_Sig": ("0B", 0, 0, 88, 0),
    "ECDSA_256k1_Sig": ("0C", 0, 0, 88, 0),
    "Blake3_512": ("0D", 0, 0, 88, 0),
    "Blake2b_512": ("0E", 0, 0, 88, 0),
    "SHA3_512": ("0F", 0, 0, 88, 0),
    "SHA2_512": ("0G", 0, 0, 88, 0),
    "Long": ("0H", 0, 0, 8, 0),
    "ECDSA_256r1_Sig": ("0I", 0, 0, 88, 0),
    "Tag1": ("0J", 2, 1, 4, 0),
    "Tag2": ("0K", 2, 0, 4, 0),
    "Tag5": ("0L", 6, 1, 8, 0),
    "Tag6": ("0M", 6, 0, 8, 0),
    "Tag9": ("0N", 10, 1, 12, 0),
    "Tag10": ("0O", 10, 0, 12, 0),
    "ECDSA_256k1N": ("1AAA", 0, 0, 48, 0),
    "ECDSA_256k1": ("1AAB", 0, 0, 48, 0),
    "Ed448N": ("1AAC", 0, 0, 80, 0),
    "Ed448": ("1AAD", 0, 0, 80, 0),
    "Ed448_Sig": ("1AAE", 0, 0, 156, 0),
    "Tag4": ("1AAF", 4, 0, 8, 0),
    "DateTime": ("1AAG", 0, 0, 36, 0),
    "X25519_Cipher_Salt": ("1AAH", 0, 0, 100, 0),
    "ECDSA_256r1N": ("1AAI", 0, 0, 48, 0),
    "ECDSA_256r1": ("1AAJ", 0, 0, 48, 0),
    "Null": ("1AAK", 0, 0, 4, 0),
    "No": ("1AAL", 0, 0, 4, 0),
    "Yes": ("1AAM", 0, 0, 4, 0),
    "Tag8": ("1AAN", 8, 0, 12, 0),
    "Escape": ("1AAO", 0, 0, 4, 0),
    "Empty": ("1AAP", 0, 0, 4, 0),
    "TBD0S": ("1__-", 2, 0, 12, 0),
    "TBD0": ("1___", 0, 0, 8, 0),
    "TBD1S": ("2__-", 2, 1, 12, 1),
    "TBD1": ("2___", 0, 0, 8, 1),
    "TBD2S": ("3__-", 2, 0, 12, 2),
    "TBD2": ("3___", 0, 0, 8, 2),
    "StrB64_L0": ("4A", 2, 0, None, 0),
    "StrB64_L1": ("5A", 2, 0, None, 1),
    "StrB64_L2": ("6A", 2, 0, None, 2),
    "StrB64_Big_L0": ("7AAA", 4, 0, None, 0),
    "StrB64_Big_L1": ("8AAA", 4, 0, None, 1),
    "StrB64_Big_L2": ("9AAA", 4, 0, None, 2),
    "Bytes_L0": ("4B", 2, 0, None, 0),
    "Bytes_L1": ("5B", 2, 0, None, 1),
    "Bytes_L2": ("6B", 2, 0, None, 2),
    "Bytes_Big_L0": ("7AAB", 4, 0, None, 0),
    "Bytes_Big_L1": ("8AAB", 4, 0, None, 1),
    "Bytes_Big_L2": ("9AAB", 4, 0, None, 2),
    "X25519_Cipher_L0": ("4C", 2, 0, None, 0),
    "X25519_Cipher_L1": ("5C", 2, 0, None, 1),
    "X25519_Cipher_L2": ("6C", 2, 0, None, 2),
    "X25519_Cipher_Big_L0": ("7AAC", 4, 0, None, 0),
    "X25519_Cipher_Big_L1": ("8AAC", 4, 0, None, 1),
    "X25519_Cipher_Big_L2": ("9AAC", 4, 0, None, 2),
    "X25519_Cipher_QB64_L0": ("4D", 2, 0, None, 0),
    "X25519_Cipher_QB64_L1": ("5D", 2, 0, None, 1),
    "X25519_Cipher_QB64_L2": ("6D", 2, 0, None, 2),
    "X25519_Cipher_QB64_Big_L0": ("7AAD", 4, 0, None, 0),
    "X25519_Cipher_QB64_Big_L1": ("8AAD", 4, 0, None, 1),
    "X25519_Cipher_QB64_Big_L2": ("9AAD", 4, 0, None, 2),
    "X25519_Cipher_QB2_L0": ("4E", 2, 0, None, 0),
    "X25519_Cipher_QB2_L1": ("5E", 2, 0, None, 1),
    "X25519_Cipher_QB2_L2": ("6E", 2, 0, None, 2),
    "X25519_Cipher_QB2_Big_L0": ("7AAE", 4, 0, None, 0),
    "X25519_Cipher_QB2_Big_L1": ("8AAE", 4, 0, None, 1),
    "X25519_Cipher_QB2_Big_L2": ("9AAE", 4, 0, None, 2),
    "HPKEBase_Cipher_L0": ("4F", 2, 0, None, 0),
    "HPKEBase_Cipher_L1": ("5F", 2, 0, None, 1),
    "HPKEBase_Cipher_L2": ("6F", 2, 0, None, 2),
    "HPKEBase_Cipher_Big_L0": ("7AAF", 4, 0, None, 0),
    "HPKEBase_Cipher_Big_L1": ("8AAF", 4, 0, None, 1),
    "HPKEBase_Cipher_Big_L2": ("9AAF", 4, 0, None, 2),
    "Decimal_L0": ("4H", 2, 0, None, 0),
    "Decimal_L1": ("5H", 2, 0, None, 1),
    "Decimal_L2": ("6H", 2, 0, None, 2),
    "Decimal_Big_L0": ("7AAH", 4, 0, None, 0),
    "Decimal_Big_L1": ("8AAH", 4, 0, None, 1),
    "Decimal_Big_L2": ("9AAH", 4, 0, None, 2),
}

# name: code, chars after it, of these for the other index, full size, lead bytes
INDEXER = {
    "Ed25519_Sig": ("A", 1, 0, 88, 0),
    "Ed25519_Crt_Sig": ("B", 1, 0, 88, 0),
    "ECDSA_256k1_Sig": ("C", 1, 0, 88, 0),
    "ECDSA_256k1_Crt_Sig": ("D", 1, 0, 88, 0),
    "ECDSA_256r1_Sig": ("E", 1, 0, 88, 0),
    "ECDSA_256r1_Crt_Sig": ("F", 1, 0, 88, 0),
    "Ed448_Sig": ("0A", 2, 1, 156, 0),
    "Ed448_Crt_Sig": ("0B", 2, 1, 156, 0),
    "Ed25519_Big_Sig": ("2A", 4, 2, 92, 0),
    "Ed25519_Big_Crt_Sig": ("2B", 4, 2, 92, 0),
    "ECDSA_256k1_Big_Sig": ("2C", 4, 2, 92, 0),
    "ECDSA_256k1_Big_Crt_Sig": ("2D", 4, 2, 92, 0),
    "ECDSA_256r1_Big_Sig": ("2E", 4, 2, 92, 0),
    "ECDSA_256r1_Big_Crt_Sig": ("2F", 4, 2, 92, 0),
    "Ed448_Big_Sig": ("3A", 6, 3, 160, 0),
    "Ed448_Big_Crt_Sig": ("3B", 6, 3, 160, 0),
    "TBD0": ("0z", 2, 0, None, 0),
    "TBD1": ("1z", 2, 1, 76, 1),
    "TBD4": ("4z", 6, 3, 80, 1),
}

COUNTER_1 = {
    "ControllerIdxSigs": ("-A", 2),
    "WitnessIdxSigs": ("-B", 2),
    "NonTransReceiptCouples": ("-C", 2),
    "TransReceiptIdxSigGroups": ("-D", 2),
    "FirstSeenReplayCouples": ("-E", 2),
    "TransIdxSigGroups": ("-F", 2),
    "SealSourceCouples": ("-G", 2),
    "TransLastIdxSigGroups": ("-H", 2),
    "SealSourceTriples": ("-I", 2),
    "PathedMaterialCouples": ("-L", 2),
    "BigPathedMaterialCouples": ("--L", 5),
    "GenericGroup": ("-T", 2),
    "BigGenericGroup": ("--T", 5),
    "BodyWithAttachmentGroup": ("-U", 2),
    "BigBodyWithAttachmentGroup": ("--U", 5),
    "AttachmentGroup": ("-V", 2),
    "BigAttachmentGroup": ("--V", 5),
    "NonNativeBodyGroup": ("-W", 2),
    "BigNonNativeBodyGroup": ("--W", 5),
    "ESSRPayloadGroup": ("-Z", 2),
    "BigESSRPayloadGroup": ("--Z", 5),
    "KERIACDCGenusVersion": ("-_AAA", 3),
}

COUNTER_2 = {
    "GenericGroup": ("-A", 2),
    "BigGenericGroup": ("--A", 5),
    "BodyWithAttachmentGroup": ("-B", 2),
    "BigBodyWithAttachmentGroup": ("--B", 5),
    "AttachmentGroup": ("-C", 2),
    "BigAttachmentGroup": ("--C", 5),
    "DatagramSegmentGroup": ("-D", 2),
    "BigDatagramSegmentGroup": ("--D", 5),
    "ESSRWrapperGroup": ("-E", 2),
    "BigESSRWrapperGroup": ("--E", 5),
    "FixBodyGroup": ("-F", 2),
    "BigFixBodyGroup": ("--F", 5),
    "MapBodyGroup": ("-G", 2),
    "BigMapBodyGroup": ("--G", 5),
    "NonNativeBodyGroup": ("-H", 2),
    "BigNonNativeBodyGroup": ("--H", 5),
    "GenericMapGroup": ("-I", 2),
    "BigGenericMapGroup": ("--I", 5),
    "GenericListGroup": ("-J", 2),
    "BigGenericListGroup": ("--J", 5),
    "ControllerIdxSigs": ("-K", 2),
    "BigControllerIdxSigs": ("--K", 5),
    "WitnessIdxSigs": ("-L", 2),
    "BigWitnessIdxSigs": ("--L", 5),
    "NonTransReceiptCouples": ("-M", 2),
    "BigNonTransReceiptCouples": ("--M", 5),
    "TransReceiptIdxSigGroups": ("-N", 2),
    "BigTransReceiptIdxSigGroups": ("--N", 5),
    "FirstSeenReplayCouples": ("-O", 2),
    "BigFirstSeenReplayCouples": ("--O", 5),
    "PathedMaterialCouples": ("-P", 2),
    "BigPathedMaterialCouples": ("--P", 5),
    "DigestSealSingles": ("-Q", 2),
    "BigDigestSealSingles": ("--Q", 5),
    "MerkleRootSealSingles": ("-R", 2),
    "BigMerkleRootSealSingles": ("--R", 5),
    "SealSourceCouples": ("-S", 2),
    "BigSealSourceCouples": ("--S", 5),
    "SealSourceTriples": ("-T", 2),
    "BigSealSourceTriples": ("--T", 5),
    "SealSourceLastSingles": ("-U", 2),
    "BigSealSourceLastSingles": ("--U", 5),
    "BackerRegistrarSealCouples": ("-V", 2),
    "BigBackerRegistrarSealCouples": ("--V", 5),
    "TypedDigestSealCouples": ("-W", 2),
    "BigTypedDigestSealCouples": ("--W", 5),
    "TransIdxSigGroups": ("-X", 2),
    "BigTransIdxSigGroups": ("--X", 5),
    "TransLastIdxSigGroups": ("-Y", 2),
    "BigTransLastIdxSigGroups": ("--Y", 5),
    "ESSRPayloadGroup": ("-Z", 2),
    "BigESSRPayloadGroup": ("--Z", 5),
    "BlindedStateQuadruples": ("-a", 2),
    "BigBlindedStateQuadruples": ("--a", 5),
    "BoundStateSextuples": ("-b", 2),
    "BigBoundStateSextuples": ("--b", 5),
    "TypedMediaQuadruples": ("-c", 2),
    "BigTypedMediaQuadruples": ("--c", 5),
    "KERIACDCGenusVersion": ("-_AAA", 3),
}

B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
VAL = {c: i for i, c in enumerate(B64)}
HARD = {**{c: 1 for c in B64[:52]}, "0": 2, "1": 4, "2": 4, "3": 4, "4": 2, "5": 2, "6": 2, "7": 4, "8": 4, "9": 4}
IHARD = {**{c: 1 for c in B64[:52]}, "0": 2, "1": 2, "2": 2, "3": 2, "4": 2}
MCODES = {row[0]: row for row in MATTER.values()}
ICODES = {row[0]: row for row in INDEXER.values()}


def b64int(s):
    n = 0
    for c in s:
        n = n * 64 + VAL[c]
    return n


def int64(n, width):
    return "".join(B64[n >> 6 * i & 63] for i in reversed(range(width)))


def encode(code, lead, raw):
    """(text, binary) of a primitive: code with soft part, then zeros to the next whole byte, lead bytes, raw"""
    n = len(code)
    bits = b64int(code) << (2 * (n % 4) + 8 * (lead + len(raw))) | int.from_bytes(raw, "big")
    size = n * 6 + 2 * (n % 4) + 8 * (lead + len(raw))
    assert size % 24 == 0, (code, lead, len(raw))
    return int64(bits, size // 6), bits.to_bytes(size // 8, "big")


class Short(Exception):
    pass


class Bad(Exception):
    pass


class Unsaid(Exception):
    """codes for tests only"""


def totext(binary):
    n = len(binary) * 8 // 6
    return int64(int.from_bytes(binary, "big") >> len(binary) * 8 % 6, n)


def split(text):
    """(code, soft, raw, full size) at the front of text"""
    if not text:
        raise Short
    if text[0] not in HARD:
        raise Bad
    hard = text[:HARD[text[0]]]
    if len(hard) < HARD[text[0]]:
        raise Short
    if hard not in MCODES:
        raise Bad
    _, ss, xs, fs, lead = MCODES[hard]
    cs = len(hard) + ss
    if len(text) < cs:
        raise Short
    soft = text[len(hard):cs]
    if any(c not in VAL for c in soft):
        raise Bad
    if fs is None:
        fs = cs + b64int(soft) * 4
    if soft[:xs] != "_" * xs:
        raise Bad
    if len(text) < fs:
        raise Short
    rest = text[cs:fs]
    if any(c not in VAL for c in rest):
        raise Bad
    n = len(rest) * 6 - 2 * (cs % 4)
    if n < 8 * lead:
        raise Bad
    bits = b64int(rest)
    raw = bits & (1 << n - 8 * lead) - 1
    if bits != raw:
        raise Bad
    return hard, soft[xs:], raw.to_bytes(n // 8 - lead, "big"), fs


def isplit(text):
    """(code, index, other index, raw, full size) of the indexed signature at the front of text"""
    if not text:
        raise Short
    if text[0] not in IHARD:
        raise Bad
    hard = text[:IHARD[text[0]]]
    if len(hard) < IHARD[text[0]]:
        raise Short
    if hard not in ICODES:
        raise Bad
    if hard[-1] == "z":
        raise Unsaid
    _, ss, os, fs, lead = ICODES[hard]
    cs = len(hard) + ss
    if len(text) < cs:
        raise Short
    if any(c not in VAL for c in text[:cs]):
        raise Bad
    index = b64int(text[len(hard):cs - os])
    other = b64int(text[cs - os:cs]) if os else index
    if hard[-1] in "BDF":        # current list only
        if os and other:
            raise Bad
        other = None
    if len(text) < fs:
        raise Short
    rest = text[cs:fs]
    if any(c not in VAL for c in rest):
        raise Bad
    n = len(rest) * 6 - 2 * (cs % 4)
    bits = b64int(rest)
    if bits >> n:
        raise Bad
    return hard, index, other, bits.to_bytes(n // 8, "big"), fs


def csplit(text, version):
    """(code, count, full size) of the counter at the front of text"""
    codes = {c: ss for c, ss in (COUNTER_1 if version == 1 else COUNTER_2).values()}
    if len(text) < 2:
        raise Short
    if text[0] != "-" or text[1] not in B64 or text[1] in B64[52:62]:
        raise Bad
    hs = 3 if text[1] == "-" else 5 if text[1] == "_" else 2
    if len(text) < hs:
        raise Short
    hard = text[:hs]
    if hard not in codes:
        raise Bad
    fs = hs + codes[hard]
    if len(text) < fs:
        raise Short
    if any(c not in VAL for c in text[hs:fs]):
        raise Bad
    return hard, b64int(text[hs:fs]), fs
