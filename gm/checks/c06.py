"""ECIES against an independent implementation, and its integrity."""
import hashlib
import hmac

from golem_messages import cryptography

from gm import gen, ref
from gm.core import Scenario
from gm.crowd import crowd

PROPERTY = 'C06'
RULE = ('A case draws a key pair (a third of them special: leading zero bytes,'
        ' x or y starting 00/04/ffff, 1, n-1), data of boundary sizes and'
        ' optional shared MAC data, encrypts and decrypts with the library and'
        ' with an independent implementation, and opens corrupted variants.'
        ' Distinct: (key class, size class, MAC data, attack).')
SIZES = [0, 1, 15, 16, 17, 31, 32, 33, 63, 64, 65, 112, 113, 127, 128, 255,
         256, 1000, 4095, 4096, 65535, 65536, 65537, 200001]


def data_of(rng, size):
    if size < 5000:
        return bytes(rng.getrandbits(8) for _ in range(size))
    block = bytes(rng.getrandbits(8) for _ in range(256))
    return (block * (size // 256 + 1))[:size]


def draw(ctx):
    rng = ctx.rng
    k = gen.key(rng)
    size = rng.choice(SIZES)
    mac = b'' if rng.random() < 0.5 else data_of(rng, rng.choice(
        [1, 2, 32, 300]))
    return rng, k, size, data_of(rng, size), mac


def fresh():
    return cryptography.ECIES(cryptography.ECIESKeyManager())


def agree(ctx):
    rng, k, size, data, mac = draw(ctx)
    ecies = fresh() if rng.random() < 0.5 else ctx.cache.setdefault(
        'ecies', fresh())
    args = {'shared_mac_data': mac} if mac or rng.random() < 0.5 else {}
    blob = ecies.encrypt(data, k.pub, **args)
    ctx.eq(len(blob), len(data) + 113, 'overhead', 'overhead')
    ctx.eq(blob[:1], b'\x04', 'first byte', 'layout')
    ctx.eq(ref.ecies_decrypt(blob, k.priv, mac), data,
           'independent decryption', 'interop')
    ctx.eq(ecies.decrypt(blob, k.priv, **args), data, 'own decryption',
           'roundtrip')
    ctx.eq(fresh().decrypt(blob, k.priv, **args), data,
           'decryption by a fresh object', 'roundtrip')
    foreign = ref.ecies_encrypt(data, k.pub, mac)
    ctx.eq(ecies.decrypt(foreign, k.priv, **args), data,
           'decryption of a foreign text', 'interop')
    ctx.event('agreed')
    # a second time: same recipient, same data
    blob2 = ecies.encrypt(data, k.pub, **args)
    ctx.check(blob[65:81] != blob2[65:81], 'initialisation vector reused',
              'iv')
    ctx.check(blob2 != blob, 'identical ciphertext twice', 'iv')
    if size >= 16:
        ctx.check(blob[81:-32] != blob2[81:-32], 'identical body', 'iv')
        ctx.check(data not in blob, 'plain text inside the ciphertext',
                  'secrecy')
        ctx.check(data[:16] not in blob, 'plain text inside the ciphertext',
                  'secrecy')
    ctx.eq(ecies.decrypt(blob2, k.priv, **args), data, 'second text')
    ctx.distinct(k.priv in gen.SPECIAL_KEYS and k.priv, size, bool(mac))
    ctx.sample({'size': size, 'mac': len(mac), 'key': k.priv.hex(),
                'blob': blob[:80].hex()})


def refuses(ctx, ecies, blob, priv, what, mechanism, **args):
    ctx.event('oracle')
    try:
        out = ecies.decrypt(blob, priv, **args)
    except Exception:
        ctx.event('refused')
        return
    ctx.fail(what + ': decrypted', mechanism, out=out[:100], blob=blob[:200])


def corrupt(ctx):
    rng, k, size, data, mac = draw(ctx)
    ecies = ctx.cache.setdefault('ecies', fresh())
    other = gen.key(rng)
    args = {'shared_mac_data': mac} if mac else {}
    blob = ecies.encrypt(data, k.pub, **args)
    ecies.decrypt(blob, k.priv, **args)
    if other.priv != k.priv:
        refuses(ctx, ecies, blob, other.priv, 'someone else\'s key', 'key',
                **args)
    refuses(ctx, ecies, blob, k.priv, 'other MAC data', 'mac',
            shared_mac_data=mac + b'\0')
    if mac:
        refuses(ctx, ecies, blob, k.priv, 'MAC data left out', 'mac')
    regions = [('head', 0, 1), ('point', 1, 65), ('iv', 65, 81),
               ('tag', len(blob) - 32, len(blob))]
    if size:
        regions.append(('body', 81, len(blob) - 32))
    for name, lo, hi in regions:
        for _ in range(3):
            pos = rng.choice([lo, hi - 1, rng.randrange(lo, hi)])
            bad = bytearray(blob)
            bad[pos] ^= 1 << rng.randrange(8)
            refuses(ctx, ecies, bytes(bad), k.priv, 'changed ' + name,
                    'changed:' + name, **args)
            ctx.distinct(name, pos - lo if pos - lo < 33 else 'far', size)
    for cut in (1, 16, 31, 32, 33, 48, len(blob) - 64, len(blob) - 1,
                rng.randrange(1, len(blob))):
        if 0 < cut < len(blob):
            refuses(ctx, ecies, blob[:-cut], k.priv, 'truncated by %d' % cut,
                    'truncated', **args)
    refuses(ctx, ecies, blob + b'\0', k.priv, 'extended', 'extended', **args)
    refuses(ctx, ecies, b'', k.priv, 'empty', 'truncated', **args)
    # parts of two texts for the same recipient
    b2 = ecies.encrypt(data + b'x', k.pub, **args)
    refuses(ctx, ecies, blob[:-32] + b2[-32:], k.priv, 'tag of another text',
            'spliced', **args)
    refuses(ctx, ecies, blob[:65] + b2[65:81] + blob[81:], k.priv,
            'iv of another text', 'spliced', **args)
    # tags that are nobody's work
    for tag in (b'\0' * 32, b'\xff' * 32, blob[-1:] * 32, blob[65:97],
                blob[-32:][::-1], blob[-32:-16] * 2, blob[-16:] * 2,
                blob[-31:] + blob[-32:-31],
                hashlib.sha256(blob[81:-32]).digest(),
                hmac.new(b'', blob[65:-32], 'sha256').digest(),
                hmac.new(b'\0' * 32, blob[65:-32], 'sha256').digest(),
                hmac.new(k.pub, blob[65:-32], 'sha256').digest()):
        if tag != blob[-32:]:
            refuses(ctx, ecies, blob[:-32] + tag, k.priv, 'made-up tag',
                    'changed:tag', **args)
            ctx.event('made-up tags')
    b3 = fresh().encrypt(data, k.pub, **args)
    refuses(ctx, ecies, b3[:65] + blob[65:], k.priv,
            'ephemeral key of another text', 'spliced', **args)
    # the header byte is not authenticated, so only 04 may pass
    for first in (2, 3, 6, 7, 0, 5):
        refuses(ctx, ecies, bytes([first]) + blob[1:], k.priv,
                'first byte %d' % first, 'changed:head', **args)
    ctx.event('attacked')


SCENARIOS = [
    Scenario('agree', agree, 2500, 60000, need={'agreed': 1500}),
    Scenario('corrupt', corrupt, 1000, 25000, need={
        'attacked': 700, 'made-up tags': 5000, 'refused': 10000}),
    Scenario('crowd', crowd(agree, corrupt), 32, 1200, need={
        'crowds': 16, 'switches': 20}, max_s=120),
]
