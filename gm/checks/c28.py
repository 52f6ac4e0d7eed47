"""Keys, addresses, ids: the small conversions everything rests on."""
import uuid

from golem_messages import cryptography, exceptions, utils

from gm import gen, ref
from gm.core import Scenario
from gm.crowd import crowd

PROPERTY = 'C28'
RULE = ('A case converts keys to addresses, bytes to hex, uuids to 32 bytes'
        ' and back, or signs, recovers and verifies with generated keys, and'
        ' compares every result to an own implementation (keccak and'
        ' secp256k1 through coincurve). Distinct: (operation, arguments).')


def conversions(ctx):
    rng = ctx.rng
    key = gen.key(rng)
    want = ref.address(key.pub)
    for given in (key.pub, key.hex, '0x' + key.hex, key.hex.upper()):
        ctx.eq(utils.pubkey_to_address(given), want,
               'pubkey_to_address(%r)' % (given,), 'address')
    raw = bytes(rng.getrandbits(8) for _ in range(rng.randrange(70)))
    if rng.random() < 0.2:
        raw = rng.choice([b'0x', b'0xab', b'\0', b'0', b'\0x', b'00']) + \
            rng.choice([b'', raw])
    for given in (raw, bytearray(raw)):
        text = utils.encode_hex(given)
        ctx.check(type(text) is str and text == raw.hex(),
                  'encode_hex(%r): %r' % (given, text), 'hex')
        ctx.eq(utils.decode_hex(text), raw, 'decode_hex', 'hex')
    ctx.eq(utils.decode_hex(raw.hex().upper()), raw, 'decode_hex', 'hex')
    digits = raw.hex()
    for odd in (digits + rng.choice('0aF'), rng.choice('0aF') + digits,
                digits + rng.choice(['g0', '0x', ' 0', '0 ', '\n', ' ', '--',
                                     '0\n', '+1', '_1', '\uff11\uff11',
                                     '\xb2\xb2']),
                rng.choice(['0x', ' ', '0X', '\ufeff', ' 0', 'x', '-1', '\t\t'])
                + digits, '-'.join(digits) + '--'):
        ctx.raises(ValueError, lambda: utils.decode_hex(odd),
                   'decode_hex(%r)' % odd, 'hex')
    word = gen.text(rng)
    ctx.eq(utils.encode_hex(word), word.encode('utf-8').hex(),
           'encode_hex(%r)' % word, 'hex')
    for odd in (None, 5, [], 1.5):
        ctx.raises(TypeError, lambda: utils.encode_hex(odd), 'encode_hex',
                   'hex')
    u = uuid.UUID(int=rng.choice([0, 1, 2**128 - 1, rng.getrandbits(128)]))
    b = utils.uuid_to_bytes32(u)
    ctx.eq(b, u.int.to_bytes(16, 'big') + b'\0' * 16, 'uuid_to_bytes32',
           'uuid')
    ctx.eq(utils.bytes32_to_uuid(b), u, 'bytes32_to_uuid', 'uuid')
    ctx.eq(utils.bytes32_to_uuid(b[:16] + b'\xff' * 16), u,
           'bytes32_to_uuid', 'uuid')
    ctx.event('converted')
    ctx.distinct(key.hex, raw)


def signatures(ctx):
    rng = ctx.rng
    key, other = gen.distinct_keys(rng, 2)
    data = rng.choice([b'', b'\0' * 32, rng.getrandbits(256).to_bytes(
        32, 'big'), rng.getrandbits(160).to_bytes(20, 'big'),
        bytes(rng.getrandbits(8) for _ in range(rng.randrange(100)))])
    if rng.random() < 0.1:
        n = rng.choice([4095, 4096, 8192, 65535, 65536, 65537, 70000, 131072,
                        200000])
        data = rng.getrandbits(8 * n).to_bytes(n, 'big')
        ctx.event('long')
    sig = cryptography.ecdsa_sign(key.priv, data)
    ctx.check(isinstance(sig, bytes) and len(sig) == 65
              and sig[64] in (0, 1, 2, 3), 'shape %r' % (sig,), 'sign')
    ctx.check(ref.signed_by(sig, data, key.pub), 'ecdsa_sign', 'sign')
    ctx.check(cryptography.ecdsa_verify(key.pub, sig, data) is True,
              'own signature refused', 'verify:refused')
    ctx.check(cryptography.ecdsa_verify(
        pubkey=key.pub, signature=ref.sign(key.priv, data),
        message=data) is True, 'good signature refused', 'verify:refused')
    ctx.event('accepted')
    kind = rng.randrange(15)
    bad, pub, what = sig, key.pub, data
    if kind == 0:
        pub = other.pub
    elif kind == 1:
        what = data + b'\0'
    elif kind == 2:
        what = bytes([data[0] ^ 1]) + data[1:] if data else b'x'
    elif kind == 3:
        bad = bytearray(sig)
        bad[rng.randrange(65)] ^= 1 << rng.randrange(8)
        bad = bytes(bad)
    elif kind == 4:
        bad = sig[:rng.randrange(65)]
    elif kind == 5:
        bad = sig + b'\0'
    elif kind == 6:
        bad = ref.ZERO_SIG
    elif kind == 7:
        bad = ref.sign(other.priv, data)
    elif kind == 8:
        bad = ref.malleate(sig)
    elif kind == 9:                 # same x, the other y
        pub = ref.twin(key.pub)
    elif kind == 10:                # same x, some y (not on the curve)
        pub = key.pub[:32] + other.pub[32:]
    elif kind == 11:                # same y, another x
        pub = other.pub[:32] + key.pub[32:]
    elif kind == 12 and data:       # one byte anywhere
        what = bytearray(data)
        what[rng.randrange(len(data))] ^= 1 << rng.randrange(8)
        what = bytes(what)
    elif kind == 13 and data:       # the last one
        what = data[:-1] + bytes([data[-1] ^ 0x80])
    else:
        pub = bytearray(key.pub)
        pub[rng.randrange(64)] ^= 1 << rng.randrange(8)
        pub = bytes(pub)
    want = ref.signed_by(bad, what, pub)
    if want:
        ctx.check(cryptography.ecdsa_verify(pub, bad, what) is True,
                  'kind %d refused' % kind, 'verify:refused')
        ctx.event('accepted')
    else:
        ctx.raises(exceptions.InvalidSignature,
                   lambda: cryptography.ecdsa_verify(pub, bad, what),
                   'kind %d accepted' % kind, 'verify:accepted')
        ctx.event('refused')
    ctx.distinct(kind, want, data)


def keys(ctx):
    rng = ctx.rng
    key = gen.key(rng)
    ctx.eq(cryptography.privtopub(key.priv), key.pub, 'privtopub', 'keys')
    ecc = cryptography.ECCx(key.priv)
    data = bytes(rng.getrandbits(8) for _ in range(32))
    ctx.eq(ecc.raw_pubkey, key.pub, 'ECCx.raw_pubkey', 'keys')
    ctx.eq(ecc.raw_privkey, key.priv, 'ECCx.raw_privkey', 'keys')
    sig = ecc.sign(data)
    ctx.check(ref.signed_by(sig, data, key.pub), 'ECCx.sign', 'keys')
    ctx.check(ecc.verify(sig, data) is True, 'ECCx.verify', 'keys')
    for odd in (sig[:64], sig + b'\0', b''):
        ctx.raises(exceptions.InvalidSignature,
                   lambda: ecc.verify(odd, data), 'ECCx.verify', 'keys')
    ctx.raises(exceptions.InvalidSignature,
               lambda: ecc.verify(sig, data + b'\0'), 'ECCx.verify', 'keys')
    text = gen.text(rng)
    for given in (data, text):
        raw = given if isinstance(given, bytes) else given.encode('utf-8')
        ctx.eq(cryptography.sha3(given), ref.sha3(raw), 'sha3', 'hash')
        ctx.eq(cryptography.mk_privkey(given), ref.keccak(raw),
               'mk_privkey', 'hash')
    a, b = cryptography.ECCx(None), cryptography.ECCx(None)
    ctx.check(a.raw_privkey != b.raw_privkey, 'fresh keys are equal', 'keys')
    ctx.eq(ref.pub(a.raw_privkey), a.raw_pubkey, 'fresh pair', 'keys')
    ctx.event('keys')
    ctx.distinct(key.hex)


def bad_keys(ctx):
    """What is no key is refused, promptly, wherever it is given."""
    rng = ctx.rng
    good = gen.key(rng)
    kind = rng.randrange(7)
    if kind == 0:
        priv = rng.choice([bytes(32), ref.N.to_bytes(32, 'big'),
                           (ref.N + rng.getrandbits(60)).to_bytes(32, 'big'),
                           b'\xff' * 32])
    elif kind == 1:
        priv = good.priv[rng.randrange(1, 32):]
    elif kind == 2:
        priv = good.priv[:rng.randrange(32)]
    elif kind == 3:
        priv = good.priv + good.priv[:rng.randrange(1, 33)]
    elif kind == 4:
        priv = b''
    elif kind == 5:
        priv = b'\1' + good.priv
    else:
        priv = rng.choice([good.priv.hex(), 5, 1.5, [1] * 32])
    ctx.raises(Exception, lambda: cryptography.ECCx(priv),
               'ECCx(%r)' % (priv,), 'bad key')
    ctx.event('private keys')
    pub = rng.choice([b'', good.pub[1:], good.pub + b'\0', b'\4' + good.pub,
                      good.pub[:32], good.pub * 2])
    ctx.raises(exceptions.InvalidKeys, lambda: cryptography.verify_pubkey(
        pub), 'verify_pubkey', 'bad key')
    ctx.raises(exceptions.CryptoError, lambda: cryptography.ecdsa_verify(
        pub, ref.sign(good.priv, b'x'), b'x'), 'ecdsa_verify with %d byte key'
        % len(pub), 'bad key')
    ctx.event('public keys')
    off = bytearray(good.pub)
    off[rng.randrange(64)] ^= 1 << rng.randrange(8)
    for bad in (pub, bytes(off), bytes(64)):
        ctx.raises(Exception, lambda: cryptography.ECIES().encrypt(
            b'data', bad), 'encrypted to a key that is none', 'bad key')
    ctx.distinct(kind, len(pub), priv)


SCENARIOS = [
    Scenario('conversions', conversions, 300, 12000, need={
        'converted': 300}),
    Scenario('signatures', signatures, 800, 30000, need={
        'accepted': 800, 'refused': 500, 'long': 40}),
    Scenario('keys', keys, 80, 3000, need={'keys': 80}),
    Scenario('bad_keys', bad_keys, 120, 3000, need={
        'private keys': 100, 'public keys': 100}, max_s=20),
    Scenario('crowd', crowd(signatures, conversions, each=12), 32, 1200, need={
        'crowds': 16, 'switches': 20}, max_s=120),
]
