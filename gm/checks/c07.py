"""Confidentiality policy of dump() and load()."""
from golem_messages import exceptions, shortcuts
from golem_messages.message import base

from gm import gen, ref, spec
from gm.core import Scenario
from gm.crowd import crowd

PROPERTY = 'C07'
RULE = ('A case dumps a message of some type with and without a recipient key'
        ' and looks at the flag, at what an eavesdropper could read and at who'
        ' can load it; corrupted encrypted frames are loaded too. Distinct:'
        ' (type, recipient given, observer or attack).')
TYPE_IDS = sorted(spec.TYPES)


def build(ctx, type_id):
    rng = ctx.rng
    maker = gen.Maker(rng, ts=rng.randint(1500000000, 1900000000))
    msg = maker.make(type_id, **({'sign': False} if type_id == 2002 else {}))
    return maker, msg


def policy(ctx):
    rng = ctx.rng
    type_id = TYPE_IDS[ctx.index % len(TYPE_IDS)]
    t = spec.TYPES[type_id]
    maker, msg = build(ctx, type_id)
    cast = maker.cast
    want = gen.describe(msg)[4]
    payload = ref.cbor_enc(gen.plain_slots(msg))
    plain = shortcuts.dump(msg, None, None)
    ctx.eq(plain[10], 0, 'flag set without a recipient', 'flag')
    ctx.check(not msg.encrypted, 'encrypted attribute', 'flag')
    ctx.check(payload in plain, 'payload is not readable', 'plain')
    got = shortcuts.load(plain, rng.choice([None, cast.other.priv]), None,
                         check_time=False)
    ctx.check(got.encrypted is False, 'encrypted attribute', 'flag')
    ctx.eq(gen.content(got), want, 'content', 'content')
    # the same live message, now to a recipient, then in the open again
    wire = shortcuts.dump(msg, None, cast.requestor.pub)
    ctx.eq(wire[10], int(t.encrypt), 'flag with a recipient', 'flag')
    ctx.eq(bool(msg.encrypted), t.encrypt, 'encrypted attribute', 'flag')
    ctx.eq(wire[:10] + wire[11:76], plain[:10] + plain[11:76],
           'header or signature depends on the encryption', 'header')
    body = wire[76:]
    if not t.encrypt:
        ctx.eq(wire, plain, 'never encrypted type differs', 'plain')
        ctx.event('open types')
    else:
        if len(payload) >= 12:
            ctx.check(payload not in body, 'payload readable', 'secrecy')
            ctx.event('secrecy')
        for chunk in chunks(payload):
            ctx.check(chunk not in body, 'part of the payload readable',
                      'secrecy', part=chunk)
        ctx.eq(len(body), len(payload) + 113, 'size', 'overhead')
        ctx.eq(ref.ecies_decrypt(body, cast.requestor.priv), payload,
               'recipient reads something else', 'content')
        for role, k in cast.keys.items():
            if k is cast.requestor:
                continue
            e = ctx.raises(
                exceptions.MessageError,
                lambda: shortcuts.load(wire, k.priv, None, check_time=False),
                'loaded by ' + role, 'stranger')
            ctx.check(isinstance(e, exceptions.DecryptionError),
                      'not reported as a decryption problem',
                      'stranger:kind', raised=repr(e))
            ctx.event('strangers')
    got = shortcuts.load(wire, cast.requestor.priv, None, check_time=False)
    ctx.eq(bool(got.encrypted), t.encrypt, 'encrypted attribute', 'flag')
    ctx.eq(gen.content(got), want, 'content', 'content')
    again = shortcuts.dump(msg, None, None)
    ctx.eq(again, plain, 'back to plain', 'flag')
    twice = shortcuts.dump(msg, None, cast.requestor.pub)
    if t.encrypt:
        ctx.check(twice[76 + 65:] != wire[76 + 65:],
                  'two encryptions of one message are identical', 'iv')
    ctx.distinct(type_id, len(payload) // 64)
    ctx.sample((t.name, wire[:120].hex()))


def own_key(ctx):
    """Whoever signs, the recipient's key alone decides: also a message
    signed by anyone, also one addressed to its own sender."""
    rng = ctx.rng
    type_id = TYPE_IDS[ctx.index % len(TYPE_IDS)]
    t = spec.TYPES[type_id]
    maker, msg = build(ctx, type_id)
    want = gen.describe(msg)[4]
    payload = ref.cbor_enc(gen.plain_slots(msg))
    keys = list(maker.cast.keys.values())
    sender = rng.choice(keys)
    receiver = sender if rng.random() < 0.5 else rng.choice(keys)
    wire = shortcuts.dump(msg, sender.priv, receiver.pub)
    ctx.eq(wire[10], int(t.encrypt), 'flag', 'flag')
    if t.encrypt:
        for chunk in chunks(payload):
            ctx.check(chunk not in wire[76:], 'part of the payload readable',
                      'secrecy', part=chunk)
        ctx.eq(ref.ecies_decrypt(wire[76:], receiver.priv), payload,
               'recipient reads something else', 'content')
    for k in keys:
        if k is receiver or not t.encrypt:
            got = shortcuts.load(wire, k.priv, sender.pub, check_time=False)
            ctx.eq(gen.content(got), want, 'content', 'content')
        else:
            ctx.raises(exceptions.DecryptionError, lambda: shortcuts.load(
                wire, k.priv, sender.pub, check_time=False),
                'read by another', 'stranger')
            ctx.event('strangers')
    ctx.event('to oneself', sender is receiver)
    ctx.distinct(type_id, sender is receiver)


def chunks(payload):
    """Pieces long enough not to occur in random bytes by chance."""
    return [payload[i:i + 12] for i in range(0, max(len(payload) - 11, 0),
                                             max(12, len(payload) // 6))]


def large(ctx):
    """No size is too large, or too small, to be kept secret."""
    rng = ctx.rng
    tid, slot = rng.choice([(1, 'rand_val'), (2015, 'err'),
                            (3008, 'options'), (2001, 'extra_data'),
                            (2004, 'extra_data'), (1015, 'conn_id')])
    size = rng.choice([0, 1, 255, 2**12, 2**15 - 1, 2**16, 2**17 + 3,
                       2**20 - 7, 2**20 + 1, 2**21 + 1, 3 * 2**20 + 5])
    block = rng.getrandbits(8 * 1024).to_bytes(1024, 'big')
    blob = (block * (size // 1024 + 1))[:size]
    maker = gen.Maker(rng, sign='none')
    msg = maker.make(tid, **{slot: [blob, 'end']})
    cast = maker.cast
    payload = ref.cbor_enc(gen.plain_slots(msg))
    wire = shortcuts.dump(msg, rng.choice([None, cast.provider.priv]),
                          cast.requestor.pub)
    ctx.eq(wire[10], 1, '%d bytes: flag' % size, 'flag')
    ctx.check(msg.encrypted is True, '%d bytes: attribute' % size, 'flag')
    ctx.eq(len(wire) - 76, len(payload) + 113, '%d bytes' % size, 'overhead')
    for chunk in chunks(payload) + [block[:12]] * (size > 12):
        ctx.check(chunk not in wire[76:], 'part of the payload readable',
                  'secrecy', part=chunk)
    ctx.check(ref.ecies_decrypt(wire[76:], cast.requestor.priv) == payload,
              'recipient reads something else', 'content')
    got = shortcuts.load(wire, cast.requestor.priv, None, check_time=False)
    ctx.check(getattr(got, slot) == [blob, 'end'], '%d bytes read wrongly' %
              size, 'content')
    for k in rng.sample([k for k in cast.keys.values()
                         if k is not cast.requestor], 2):
        ctx.raises(exceptions.DecryptionError, lambda: shortcuts.load(
            wire, k.priv, None, check_time=False), 'read by another',
            'stranger')
    ctx.event('large')
    ctx.distinct(tid, size)


def corrupted(ctx):
    """Damage to the encrypted body is noticed even when no sender is
    expected."""
    rng = ctx.rng
    enc = [t for t in TYPE_IDS if spec.TYPES[t].encrypt]
    type_id = enc[ctx.index % len(enc)]
    maker, msg = build(ctx, type_id)
    cast = maker.cast
    wire = shortcuts.dump(msg, cast.provider.priv, cast.requestor.pub)
    sender = rng.choice([None, cast.provider.pub])
    for _ in range(8):
        pos = rng.choice([76, rng.randrange(77, 141), rng.randrange(141, 157),
                          len(wire) - 1 - rng.randrange(32),
                          rng.randrange(141, len(wire))])
        bad = bytearray(wire)
        bad[pos] ^= 1 << rng.randrange(8)
        e = ctx.raises(exceptions.MessageError, lambda: shortcuts.load(
            bytes(bad), cast.requestor.priv, sender, check_time=False),
            'accepted with byte %d changed' % pos, 'corrupted')
        ctx.check(isinstance(e, exceptions.DecryptionError),
                  'not reported as a decryption problem', 'corrupted:kind',
                  raised=repr(e), pos=pos)
        ctx.event('corrupted')
        ctx.distinct(type_id, 'byte', min(pos, 160))
    for cut in (1, 16, 32, 40, len(wire) - 77, len(wire) - 120):
        if 0 < cut < len(wire) - 76:
            ctx.raises(exceptions.MessageError, lambda: shortcuts.load(
                wire[:-cut], cast.requestor.priv, sender, check_time=False),
                'accepted with %d bytes missing' % cut, 'truncated')
            ctx.event('corrupted')
    # flag cleared on an encrypted frame: cipher text never taken as content
    # of an authenticated sender
    if spec.TYPES[type_id].sign:
        ctx.raises(exceptions.MessageError, lambda: shortcuts.load(
            wire[:10] + b'\0' + wire[11:], cast.requestor.priv,
            cast.provider.pub, check_time=False),
            'cipher text accepted as plain text', 'flag cleared')


def re_target(ctx):
    """One message sent to several recipients in turn, by one process."""
    rng = ctx.rng
    type_id = rng.choice([t for t in TYPE_IDS if spec.TYPES[t].encrypt])
    maker, msg = build(ctx, type_id)
    shortcuts.dump(msg, maker.cast.provider.priv, None)
    keys = gen.distinct_keys(rng, rng.choice([3, 6]))
    wires = [(k, shortcuts.dump(msg, None, k.pub))
             for k in keys + rng.sample(keys, 2)]
    rng.shuffle(wires)
    for k, wire in wires:
        for j in rng.sample(keys, 3) + [k]:
            if j.priv == k.priv:
                got = shortcuts.load(wire, j.priv, maker.cast.provider.pub,
                                     check_time=False)
                ctx.eq(gen.describe(got), gen.describe(msg), 'content',
                       'content')
                ctx.event('own')
            else:
                ctx.raises(exceptions.DecryptionError, lambda: shortcuts.load(
                    wire, j.priv, maker.cast.provider.pub, check_time=False),
                    'read by another recipient', 'stranger')
                ctx.event('strangers')
    ctx.distinct(type_id, len(keys))


def unreachable(ctx):
    """A recipient for whom nothing can be encrypted gets nothing, least of
    all in the clear."""
    rng = ctx.rng
    type_id = TYPE_IDS[ctx.index % len(TYPE_IDS)]
    t = spec.TYPES[type_id]
    maker, msg = build(ctx, type_id)
    cast = maker.cast
    payload = ref.cbor_enc(gen.plain_slots(msg))
    good = cast.requestor.pub
    asked = []

    def broken(data):
        asked.append(data)
        raise rng.choice([
            ValueError, TypeError, KeyError, OSError, RuntimeError,
            AssertionError, MemoryError, AttributeError,
            exceptions.CryptoError, exceptions.InvalidKeys,
            exceptions.MessageError])('no')

    for _ in range(6):
        msg.sig = None if rng.random() < 0.5 else msg.sig
        priv = cast.provider.priv if msg.sig is None and rng.random() < 0.7 \
            else None
        bad = rng.choice([
            good[:63], good + b'\0', b'\x04' + good, good[:32], b'\0' * 64,
            b'\xff' * 64, good[:63] + bytes([good[63] ^ 1]), b'\x07' * 64,
            good.hex(), good.hex().encode(), bytearray(good), 7, [good],
            b'x', object(), None, None])
        if bad is None:
            def send():
                return msg.serialize(sign_as=priv, encrypt_func=broken)
        else:
            def send():
                return shortcuts.dump(msg, priv, bad)
        try:
            wire = send()
        except Exception:
            ctx.check(t.encrypt, 'an open kind needs no recipient',
                      'unreachable:open')
            ctx.event('unreachable')
        else:
            if t.encrypt:
                ctx.check(wire[10] == 1, 'sent with the flag cleared',
                          'unreachable:flag')
                for chunk in [payload] + chunks(payload):
                    ctx.check(len(chunk) < 12 or chunk not in wire,
                              'sent in the clear', 'unreachable:clear')
            else:
                ctx.eq(wire[76:76 + len(payload)], payload, 'open kind',
                       'unreachable:open')
                ctx.eq(asked, [], 'encrypted an open kind',
                       'unreachable:open')
                ctx.event('open')
        # the next one is served as if nothing had happened
        if rng.random() < 0.5:
            msg.sig = None
            wire = shortcuts.dump(msg, cast.provider.priv, good)
            ctx.eq(wire[10], int(t.encrypt), 'flag afterwards', 'flag')
            if t.encrypt:
                ctx.eq(ref.ecies_decrypt(wire[76:], cast.requestor.priv),
                       payload, 'recipient reads something else', 'content')
    ctx.distinct(type_id, type(bad).__name__)


def custom(ctx):
    """Whatever does the encrypting is given the content once, and what it
    returns is sent as it is, and the other way round for loading."""
    rng = ctx.rng
    type_id = TYPE_IDS[ctx.index % len(TYPE_IDS)]
    t = spec.TYPES[type_id]
    maker, msg = build(ctx, type_id)
    payload = ref.cbor_enc(gen.plain_slots(msg))
    seen = []
    pad = bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 1, 65])))

    def shift(data):
        seen.append(data)
        return pad + bytes(b ^ 0x55 for b in data)

    def back(data):
        seen.append(data)
        return bytes(b ^ 0x55 for b in data[len(pad):])

    wire = msg.serialize(sign_as=maker.cast.provider.priv,
                         encrypt_func=shift)
    trailer = wire[-32:] if type_id == 0 else b''
    ctx.eq(seen, [payload] if t.encrypt else [], 'given', 'custom:given')
    ctx.eq(wire[76:], (pad + bytes(b ^ 0x55 for b in payload)
                       if t.encrypt else payload) + trailer, 'sent',
           'custom:sent')
    del seen[:]
    got = base.Message.deserialize(
        wire, back, check_time=False,
        sender_public_key=maker.cast.provider.pub)
    ctx.eq(seen, [wire[76:]] if t.encrypt else [], 'given', 'custom:given')
    ctx.eq(gen.content(got), gen.content(msg), 'content', 'content')
    ctx.event('custom')
    ctx.distinct(type_id, len(pad))


SCENARIOS = [
    Scenario('unreachable', unreachable, 63 * 6, 63 * 120, need={
        'unreachable': 1000, 'open': 20}),
    Scenario('custom', custom, 63 * 3, 63 * 60, need={'custom': 150}),
    Scenario('large', large, 32, 400, need={'large': 32}),
    Scenario('crowd', crowd(policy, re_target), 32, 1200, need={
        'crowds': 16, 'switches': 20}, max_s=120),
    Scenario('policy', policy, 63 * 14, 63 * 200, need={
        'strangers': 1500, 'open types': 20}),
    Scenario('own_key', own_key, 63 * 6, 63 * 80, need={
        'strangers': 1000, 'to oneself': 100}),
    Scenario('corrupted', corrupted, 61 * 8, 61 * 100, need={
        'corrupted': 2500}),
    Scenario('re_target', re_target, 300, 5000, need={
        'own': 500, 'strangers': 500}),
]
