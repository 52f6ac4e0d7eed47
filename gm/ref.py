"""Independent reference for the wire format and the cryptography.

Written from the protocol, sharing no code with golem_messages: own CBOR
encoder / decoder, hashlib, pycryptodome and libsecp256k1 (coincurve).
"""
import hashlib
import hmac
import os
import struct

from coincurve import PrivateKey, PublicKey
from Crypto.Cipher import AES
from Crypto.Hash import keccak as _keccak

P = 2**256 - 2**32 - 977
N = int('FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141', 16)
HDR = struct.Struct('!HQ?')
SIG_LEN = 65
ZERO_SIG = b'\0' * 65


class CborError(ValueError):
    pass


# --- CBOR ------------------------------------------------------------------

def _head(major, n):
    if n < 24:
        return bytes([major << 5 | n])
    if n < 1 << 8:
        return bytes([major << 5 | 24, n])
    if n < 1 << 16:
        return bytes([major << 5 | 25]) + struct.pack('!H', n)
    if n < 1 << 32:
        return bytes([major << 5 | 26]) + struct.pack('!I', n)
    return bytes([major << 5 | 27]) + struct.pack('!Q', n)


def cbor_enc(v):
    if v is None:
        return b'\xf6'
    if v is True:
        return b'\xf5'
    if v is False:
        return b'\xf4'
    if isinstance(v, int):
        if v >= 0:
            if v < 1 << 64:
                return _head(0, v)
            raw = v.to_bytes((v.bit_length() + 7) // 8, 'big')
            return b'\xc2' + _head(2, len(raw)) + raw
        n = -1 - v
        if n < 1 << 63:
            # (the peers' encoder goes over to bignums here already)
            return _head(1, n)
        raw = n.to_bytes((n.bit_length() + 7) // 8, 'big')
        return b'\xc3' + _head(2, len(raw)) + raw
    if isinstance(v, float):
        return b'\xfb' + struct.pack('!d', v)
    if isinstance(v, (bytes, bytearray)):
        return _head(2, len(v)) + bytes(v)
    if isinstance(v, str):
        raw = v.encode('utf-8')
        return _head(3, len(raw)) + raw
    if isinstance(v, (list, tuple)):
        return _head(4, len(v)) + b''.join(cbor_enc(x) for x in v)
    if isinstance(v, dict):
        return _head(5, len(v)) + b''.join(
            cbor_enc(k) + cbor_enc(x) for k, x in v.items())
    raise CborError('cannot encode %r' % type(v))


def _dec(b, i):
    if i >= len(b):
        raise CborError('truncated')
    ib = b[i]
    major, info = ib >> 5, ib & 31
    i += 1
    if major == 7:
        if info == 20:
            return False, i
        if info == 21:
            return True, i
        if info == 22:
            return None, i
        if info == 27:
            return struct.unpack('!d', b[i:i + 8])[0], i + 8
        if info == 26:
            return struct.unpack('!f', b[i:i + 4])[0], i + 4
        if info == 25:
            return struct.unpack('!e', b[i:i + 2])[0], i + 2
        raise CborError('simple %d' % info)
    if info < 24:
        n = info
    elif info < 28:
        size = 1 << (info - 24)
        if i + size > len(b):
            raise CborError('truncated')
        n = int.from_bytes(b[i:i + size], 'big')
        i += size
    else:
        raise CborError('indefinite / reserved')
    if major == 0:
        return n, i
    if major == 1:
        return -1 - n, i
    if major in (2, 3):
        if i + n > len(b):
            raise CborError('truncated')
        raw = b[i:i + n]
        return (raw if major == 2 else raw.decode('utf-8')), i + n
    if major == 4:
        out = []
        for _ in range(n):
            x, i = _dec(b, i)
            out.append(x)
        return out, i
    if major == 5:
        d = {}
        for _ in range(n):
            k, i = _dec(b, i)
            x, i = _dec(b, i)
            d[k] = x
        return d, i
    x, i = _dec(b, i)
    if n == 2:
        return int.from_bytes(x, 'big'), i
    if n == 3:
        return -1 - int.from_bytes(x, 'big'), i
    raise CborError('tag %d' % n)


def cbor_dec(b):
    v, i = _dec(bytes(b), 0)
    if i != len(b):
        raise CborError('%d trailing bytes' % (len(b) - i))
    return v


# --- keys, hashes, signatures ----------------------------------------------

def pub(priv):
    return PrivateKey(priv).public_key.format(compressed=False)[1:]


def sha3(data):
    return hashlib.sha3_256(data).digest()


def keccak(data):
    return _keccak.new(digest_bits=256, data=data).digest()


def address(pubkey):
    """EIP-55 checksummed address of a raw public key."""
    low = keccak(pubkey)[12:].hex()
    digest = keccak(low.encode()).hex()
    return '0x' + ''.join(
        c.upper() if int(digest[i], 16) >= 8 else c
        for i, c in enumerate(low))


def sign(priv, data):
    """65-byte recoverable signature of sha3-256(data)."""
    return PrivateKey(priv).sign_recoverable(sha3(data), hasher=None)


def recover(sig, data):
    """The public key that made `sig` over `data`, or None."""
    try:
        return PublicKey.from_signature_and_message(
            bytes(sig), sha3(data), hasher=None).format(compressed=False)[1:]
    except Exception:
        return None


def signed_by(sig, data, pubkey):
    return recover(sig, data) == bytes(pubkey)


def twin(pubkey):
    """The other point with the same x."""
    y = int.from_bytes(pubkey[32:], 'big')
    return pubkey[:32] + (P - y).to_bytes(32, 'big')


def malleate(sig):
    """The other valid encoding of the same ECDSA signature."""
    s = int.from_bytes(sig[32:64], 'big')
    return sig[:32] + (N - s).to_bytes(32, 'big') + bytes([sig[64] ^ 1])


def content_hash(type_id, timestamp, payload, version=None):
    sha = hashlib.sha1()
    sha.update(cbor_enc([type_id, timestamp]))
    sha.update(payload)
    out = sha.digest()
    if version is not None:
        out += version.encode('ascii', 'replace')
    return out


# --- frames ----------------------------------------------------------------

class Frame:
    """A dumped message taken apart."""

    def __init__(self, data):
        if len(data) < HDR.size + SIG_LEN:
            raise ValueError('short frame: %d' % len(data))
        self.type_id, self.timestamp, self.encrypted = HDR.unpack(
            data[:HDR.size])
        self.sig = data[HDR.size:HDR.size + SIG_LEN]
        rest = data[HDR.size + SIG_LEN:]
        self.version = None
        if self.type_id == 0:
            rest, trailer = rest[:-32], rest[-32:]
            self.version = trailer[1:1 + trailer[0]].decode('ascii')
            self.trailer = trailer
        self.body = rest

    def slots(self):
        return cbor_dec(self.body)


def frame(type_id, timestamp, encrypted, sig, body, version=None):
    out = HDR.pack(type_id, timestamp, encrypted) + sig + body
    if type_id == 0:
        raw = (version or '').encode('ascii')[:31]
        out += bytes([len(raw)]) + raw + b'\0' * (31 - len(raw))
    return out


# --- ECIES -----------------------------------------------------------------

def _kdf(secret):
    key = b''
    counter = 0
    while len(key) < 32:
        counter += 1
        key += hashlib.sha256(struct.pack('>I', counter) + secret).digest()
    key = key[:32]
    return key[:16], hashlib.sha256(key[16:]).digest()


def _ecdh(priv, pubkey):
    """sha256 over the compressed product point (libsecp256k1's default)."""
    point = PublicKey(b'\x04' + pubkey).multiply(priv)
    return hashlib.sha256(point.format(compressed=True)).digest()


def _ctr(key, iv, data):
    return AES.new(key, AES.MODE_CTR, nonce=b'',
                   initial_value=int.from_bytes(iv, 'big')).encrypt(data)


def ecies_encrypt(data, pubkey, mac_data=b'', ephem=None, iv=None):
    ephem = ephem or os.urandom(32)
    iv = iv or os.urandom(16)
    enc_key, mac_key = _kdf(_ecdh(ephem, pubkey))
    body = iv + _ctr(enc_key, iv, data)
    tag = hmac.new(mac_key, body + mac_data, hashlib.sha256).digest()
    return b'\x04' + pub(ephem) + body + tag


def ecies_decrypt(blob, priv, mac_data=b''):
    """Plain text, or None if the blob does not authenticate."""
    if len(blob) < 113 or blob[:1] != b'\x04':
        return None
    try:
        enc_key, mac_key = _kdf(_ecdh(priv, blob[1:65]))
    except Exception:
        return None
    body, tag = blob[65:-32], blob[-32:]
    if not hmac.compare_digest(tag, hmac.new(
            mac_key, body + mac_data, hashlib.sha256).digest()):
        return None
    return _ctr(enc_key, body[:16], body[16:])


# --- promissory notes --------------------------------------------------------

def promissory_hash(contract, addr_from, addr_to, amount, subtask_id):
    """keccak("\\x19Ethereum Signed Message:\\n" + len + packed note)."""
    import uuid
    raw = (bytes.fromhex(contract[2:]) + bytes.fromhex(addr_from[2:])
           + bytes.fromhex(addr_to[2:]) + amount.to_bytes(32, 'big')
           + uuid.UUID(subtask_id).bytes + b'\0' * 16)
    return keccak(b'\x19Ethereum Signed Message:\n'
                  + str(len(raw)).encode() + raw)


def promissory_signer(vrs, digest):
    """Checksummed address of the signer of `digest`, or None."""
    v, r, s = vrs
    sig = bytes(r) + bytes(s) + bytes([v - 27])
    try:
        key = PublicKey.from_signature_and_message(sig, digest, hasher=None)
    except Exception:
        return None
    return address(key.format(compressed=False)[1:])
