"""Stand-in for the third-party package pyelliptic==1.5.10.

The real package is not available in this sandbox (see /opt/vp/BUILD.json).
golem_messages uses a small part of it: key generation / key checking for
secp256k1, AES-128-CTR, HMAC-SHA256, a constant-time comparison and random
IVs.  Everything here is real cryptography (pycryptodome, libsecp256k1 through
coincurve, hashlib); only the API surface is re-created.
"""
import hashlib
import hmac as _hmac
import os

from Crypto.Cipher import AES as _AES
from coincurve import PrivateKey as _PrivateKey

__version__ = '1.5.10+standin'

_SECP256K1_N = int(
    'FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141', 16)


class _CipherName:
    def __init__(self, name, keylen, blocksize):
        self._name = name
        self._keylen = keylen
        self._blocksize = blocksize

    def get_name(self):
        return self._name

    def get_blocksize(self):
        return self._blocksize


class _OpenSSL:
    cipher_algo = {
        'aes-128-ctr': _CipherName('aes-128-ctr', 16, 16),
        'aes-256-ctr': _CipherName('aes-256-ctr', 32, 16),
    }

    def get_cipher(self, name):
        if name not in self.cipher_algo:
            raise Exception('Unknown cipher')
        return self.cipher_algo[name]

    @staticmethod
    def rand(size):
        return os.urandom(size)


OpenSSL = _OpenSSL()


class Cipher:
    def __init__(self, key, iv, do, ciphername='aes-256-ctr'):
        cipher = OpenSSL.get_cipher(ciphername)
        if len(key) != cipher._keylen:
            raise ValueError('Invalid key length')
        if len(iv) != cipher._blocksize:
            raise ValueError('Invalid IV length')
        if do not in (0, 1):
            raise Exception('RTFM ...')
        self._do = do
        self._aes = _AES.new(
            bytes(key), _AES.MODE_CTR, nonce=b'',
            initial_value=int.from_bytes(iv, 'big'))

    @staticmethod
    def get_all_cipher():
        return OpenSSL.cipher_algo.keys()

    @staticmethod
    def get_blocksize(ciphername):
        return OpenSSL.get_cipher(ciphername).get_blocksize()

    @staticmethod
    def gen_IV(ciphername):
        return OpenSSL.rand(OpenSSL.get_cipher(ciphername).get_blocksize())

    def update(self, data):
        data = bytes(data)
        return self._aes.encrypt(data) if self._do else self._aes.decrypt(data)

    def final(self):
        return b''

    def ciphering(self, data):
        return self.update(data) + self.final()


def hmac_sha256(k, m):
    return _hmac.new(k, m, hashlib.sha256).digest()


def hmac_sha512(k, m):
    return _hmac.new(k, m, hashlib.sha512).digest()


def equals(a, b):
    if len(a) != len(b):
        return False
    return _hmac.compare_digest(bytes(a), bytes(b))


class ECC:
    """secp256k1 only (the only curve the code under test asks for)."""

    def __init__(self, pubkey=None, privkey=None, pubkey_x=None, pubkey_y=None,
                 raw_privkey=None, curve='secp256k1'):
        if curve != 'secp256k1':
            raise Exception('Unknown curve')
        if pubkey is not None or privkey is not None:
            raise NotImplementedError('encoded keys')
        self.curve = curve
        if pubkey_x is not None and pubkey_y is not None:
            if raw_privkey is not None:
                if self.raw_check_key(raw_privkey, pubkey_x, pubkey_y) < 0:
                    raise Exception('Bad ECC keys.')
            self.pubkey_x, self.pubkey_y = pubkey_x, pubkey_y
            self.privkey = raw_privkey
        else:
            self.privkey, self.pubkey_x, self.pubkey_y = self._generate()

    @staticmethod
    def _generate():
        while True:
            raw = os.urandom(32)
            if 0 < int.from_bytes(raw, 'big') < _SECP256K1_N:
                break
        pub = _PrivateKey(raw).public_key.format(compressed=False)
        # like BN_bn2bin: no leading zero bytes in the private key
        return raw.lstrip(b'\0'), pub[1:33], pub[33:]

    @staticmethod
    def raw_check_key(privkey, pubkey_x, pubkey_y):
        pub = _PrivateKey(privkey).public_key.format(compressed=False)
        if pub[1:] != pubkey_x + pubkey_y:
            raise Exception('[OpenSSL] key mismatch')
        return 0
