"""Authenticity at load: tampered, re-attributed and replayed frames."""
import struct

import golem_messages
from golem_messages import exceptions, shortcuts

from gm import gen, ref, spec
from gm.core import Scenario
from gm.crowd import crowd

PROPERTY = 'C03'
RULE = ('A case dumps one signed message, then loads forged variants of the'
        ' frame with the claimed sender\'s key: single bit flips in every'
        ' region (all bits of header and signature, sampled payload bits),'
        ' other keys, spliced parts of two frames, other type or time, the'
        ' same fields in another valid encoding, large bodies.'
        ' Distinct: (type, encrypted, attack, region).')
SIGNED = [t for t in sorted(spec.TYPES) if spec.TYPES[t].sign]
UNSIGNED = [t for t in sorted(spec.TYPES) if not spec.TYPES[t].sign]
FLAG_BYTE = 10


def build(ctx, type_id, cast=None, **kw):
    rng = ctx.rng
    maker = gen.Maker(rng, cast=cast, ts=rng.randint(
        1500000000, 1900000000), **kw)
    msg = maker.make(type_id, **({'sign': False} if type_id == 2002 else {}))
    return maker, msg


def rejected(ctx, wire, priv, pub, what, mechanism):
    e = ctx.raises(exceptions.MessageError,
                   lambda: shortcuts.load(wire, priv, pub, check_time=False),
                   what, mechanism, wire=wire.hex()[:4000])
    ctx.event('rejected')
    return e


def tamper(ctx):
    """Bit flips in a plain frame."""
    rng = ctx.rng
    type_id = SIGNED[ctx.index % len(SIGNED)]
    t = spec.TYPES[type_id]
    maker, msg = build(ctx, type_id)
    sender, receiver = maker.cast.provider, maker.cast.requestor
    wire = shortcuts.dump(msg, sender.priv, None)
    want = gen.describe(msg)
    got = shortcuts.load(wire, receiver.priv, sender.pub, check_time=False)
    ctx.eq(gen.describe(got), want, 'the genuine frame does not load')
    body_end = len(wire)
    if type_id == 0:
        # only the length byte and the text of the trailer are meaningful
        body_end = len(wire) - 32 + 1 + len(golem_messages.__version__)
    bits = [b for b in range(11 * 8) if b // 8 != FLAG_BYTE]
    picked = rng.sample(bits, 8)
    picked += rng.sample(range(11 * 8, 76 * 8), 20)
    picked += [64 * 8 + 11 * 8 + 7]      # recovery id
    tail = range(76 * 8, body_end * 8)
    picked += rng.sample(tail, min(24, len(tail)))
    picked += [76 * 8 + 7, body_end * 8 - 1, body_end * 8 - 8]
    for bit in picked:
        bad = bytearray(wire)
        bad[bit // 8] ^= 0x80 >> (bit % 8)
        region = 'type' if bit < 16 else 'time' if bit < 88 else \
            'signature' if bit < 76 * 8 else 'payload'
        if int.from_bytes(bad[:2], 'big') in UNSIGNED:
            # becomes a frame of a type that carries no signature at all
            continue
        rejected(ctx, bytes(bad), receiver.priv, sender.pub,
                 'accepted with bit %d (%s) of %s flipped' % (
                     bit, region, t.name), 'tamper:' + region)
        ctx.event(region)
        ctx.distinct(type_id, 'flip', region, bit % 8)
    # appended / removed payload bytes
    for bad in (wire[:body_end] + b'\xf6' + wire[body_end:],
                wire[:body_end - 1] + wire[body_end:]):
        try:
            got = shortcuts.load(bad, receiver.priv, sender.pub,
                                 check_time=False)
        except exceptions.MessageError:
            ctx.event('rejected')
        else:
            ctx.fail('accepted with payload length changed', 'tamper:length',
                     wire=bad.hex()[:4000], got=gen.describe(got))


def attribution(ctx):
    """Right content, wrong author."""
    rng = ctx.rng
    type_id = SIGNED[ctx.index % len(SIGNED)]
    t = spec.TYPES[type_id]
    maker, msg = build(ctx, type_id)
    cast = maker.cast
    sender, receiver = cast.provider, cast.requestor
    encrypted = t.encrypt and rng.random() < 0.5
    wire = shortcuts.dump(msg, sender.priv,
                          receiver.pub if encrypted else None)
    got = shortcuts.load(wire, receiver.priv, sender.pub, check_time=False)
    ctx.eq(gen.describe(got), gen.describe(msg), 'genuine frame')
    for name, k in cast.keys.items():
        if k is sender:
            continue
        e = rejected(ctx, wire, receiver.priv, k.pub,
                     'signed by the provider, accepted as from ' + name,
                     'attribution')
        ctx.check(isinstance(e, exceptions.InvalidSignature),
                  'not reported as a bad signature', 'attribution:kind',
                  raised=repr(e))
    for name, pub in (
            ('mirrored', ref.twin(sender.pub)),
            ('zero', bytes(64)), ('all ones', b'\xff' * 64),
            ('reversed', sender.pub[::-1]),
            ('half zero', sender.pub[:32] + bytes(32)),
            ('zero half', bytes(32) + sender.pub[32:]),
            ('half x', cast.other.pub[:32] + sender.pub[32:]),
            ('half y', sender.pub[:32] + cast.other.pub[32:])):
        if pub == sender.pub:
            continue  # private keys 1 and n-1
        rejected(ctx, wire, receiver.priv, pub,
                 'signed by the provider, accepted as from the %s key' % name,
                 'attribution')
    fr = ref.Frame(wire)
    trailer = wire[76 + len(fr.body):]
    payload = ref.cbor_enc(gen.plain_slots(msg))
    version = golem_messages.__version__ if type_id == 0 else None
    digest = ref.content_hash(type_id, msg.timestamp, payload, version)
    forgeries = {
        'other key': ref.sign(cast.other.priv, digest),
        'zeros': ref.ZERO_SIG,
        'ones': b'\xff' * 65,
        'other time': ref.sign(sender.priv, ref.content_hash(
            type_id, msg.timestamp + rng.choice([1, -1, 60]), payload,
            version)),
        'other type': ref.sign(sender.priv, ref.content_hash(
            type_id + 1, msg.timestamp, payload, version)),
        'payload only': ref.sign(sender.priv, payload),
        'other payload': ref.sign(sender.priv, ref.content_hash(
            type_id, msg.timestamp, payload + b'\0', version)),
        'swapped halves': fr.sig[32:64] + fr.sig[:32] + fr.sig[64:],
    }
    if version is not None:
        forgeries['other version'] = ref.sign(
            sender.priv, ref.content_hash(
                type_id, msg.timestamp, payload,
                version.rsplit('.', 1)[0] + '.99'))
    for name, sig in forgeries.items():
        bad = wire[:11] + sig + fr.body + trailer
        e = rejected(ctx, bad, receiver.priv, sender.pub,
                     '%s accepted with a forged signature (%s)' % (
                         t.name, name), 'forgery:' + name)
        ctx.check(isinstance(e, exceptions.InvalidSignature),
                  'not reported as a bad signature', 'forgery:kind',
                  raised=repr(e), forgery=name)
        ctx.distinct(type_id, encrypted, name)


def version_forms(rng, v):
    """Other versions, most of them as good as the signed one for whoever
    asks only whether it is compatible."""
    major, minor, patch = v.split('-')[0].split('+')[0].split('.')[:3]
    other = str(int(patch) + rng.choice([1, 2, 9, 90]))
    return [
        v + rng.choice(['+x', '+1', '+evil.2', '+']),
        '%s.%s.%s' % (major, minor, other),
        '%s.%s.%s+b' % (major, minor, other),
        '%s.%s.%s-rc.1' % (major, minor, other),
        v + rng.choice(['-rc.1', '-0', '-alpha']),
        v + rng.choice([' ', '\t', '.0', '.', 'x', '\n', '\0', '0']),
        rng.choice([' ', 'v', '0', '\0', '=']) + v,
        v[:-1], v[1:], v.replace('.', '\0'), v.replace('.', ','),
        '%s.%s' % (major, minor), '%s.0%s.%s' % (major, minor, patch), '',
        v.replace('2', '\u00b2'), v.replace('.', '\u2024'),
        '\u00e9' * 3, v + '\u00e9', '?' + v[1:]]


def hello_version(ctx):
    """The version a signed Hello ends with is signed, all of it."""
    rng = ctx.rng
    maker, msg = build(ctx, 0)
    sender, receiver = maker.cast.provider, maker.cast.requestor
    encrypted = rng.random() < 0.2
    v = golem_messages.__version__
    wire = shortcuts.dump(msg, sender.priv,
                          receiver.pub if encrypted else None)
    ctx.eq(wire[-32:], struct.pack('!32p', v.encode()), 'trailer',
           'hello:trailer')
    if rng.random() < 0.5:
        shortcuts.load(wire, receiver.priv, sender.pub, check_time=False)
    for form in version_forms(rng, v):
        for raw in {form.encode('utf-8', 'replace'),
                    form.encode('latin-1', 'replace')}:
            if raw == v.encode():
                continue
            bad = wire[:-32] + struct.pack('!32p', raw)
            rejected(ctx, bad, receiver.priv, sender.pub,
                     'signed by %r, accepted from %r' % (v, raw),
                     'hello:version')
            ctx.event('versions')
    if rng.random() < 0.3:
        # and what was signed for another version is not this one's
        payload = ref.cbor_enc(gen.plain_slots(msg))
        for form in version_forms(rng, v):
            if form == v:
                continue
            sig = ref.sign(sender.priv, ref.content_hash(
                0, msg.timestamp, payload, form))
            rejected(ctx, ref.frame(0, msg.timestamp, False, sig, payload,
                                    v), receiver.priv, sender.pub,
                     'signed by %r, accepted from %r' % (form, v),
                     'hello:version')
    ctx.distinct(encrypted, msg.timestamp)


def splice(ctx):
    """Two genuine frames of one sender, parts exchanged; header rewritten to
    another type with the same slots."""
    rng = ctx.rng
    cast = gen.Cast(rng)
    type_id = SIGNED[ctx.index % len(SIGNED)]
    wires = []
    for _ in range(2):
        maker, msg = build(ctx, type_id, cast=cast)
        wires.append(shortcuts.dump(msg, cast.provider.priv, None))
    a, b = wires
    if a[76:] != b[76:]:
        rejected(ctx, a[:76] + b[76:], None, cast.provider.pub,
                 'payload of another message accepted', 'splice:payload')
    if a[:11] != b[:11]:
        rejected(ctx, b[:11] + a[11:], None, cast.provider.pub,
                 'time of another message accepted', 'splice:time')
    rejected(ctx, a[:11] + b[11:76] + a[76:], None, cast.provider.pub,
             'signature of another message accepted', 'splice:signature')
    for other in SIGNED:
        if other != type_id and rng.random() < 0.4 and 0 not in (
                other, type_id):
            bad = other.to_bytes(2, 'big') + a[2:]
            rejected(ctx, bad, None, cast.provider.pub,
                     '%s accepted as %s' % (spec.TYPES[type_id].name,
                                            spec.TYPES[other].name),
                     'splice:type')
            ctx.distinct(type_id, other)
    later = (int.from_bytes(a[2:10], 'big') + rng.choice([1, 60, 3600]))
    rejected(ctx, a[:2] + later.to_bytes(8, 'big') + a[10:], None,
             cast.provider.pub, 'refreshed timestamp accepted', 'splice:time')


def exempt(ctx):
    """Types that are never signed load whatever the key; without a key
    nothing is verified."""
    rng = ctx.rng
    if ctx.index % 2:
        type_id = UNSIGNED[(ctx.index // 2) % len(UNSIGNED)]
        maker, msg = build(ctx, type_id)
        wire = shortcuts.dump(msg, maker.cast.provider.priv, None)
        ctx.eq(wire[11:76], ref.ZERO_SIG, 'unsignable type was signed')
        sig = rng.choice([ref.ZERO_SIG, ref.sign(
            maker.cast.other.priv, b'x'), b'\xff' * 65])
        wire = wire[:11] + sig + wire[76:]
        got = shortcuts.load(wire, None, maker.cast.provider.pub,
                             check_time=False)
        ctx.event('unsigned types')
    else:
        type_id = SIGNED[(ctx.index // 2) % len(SIGNED)]
        maker, msg = build(ctx, type_id)
        wire = shortcuts.dump(msg, maker.cast.provider.priv, None)
        wire = wire[:11] + ref.sign(maker.cast.other.priv, b'y') + wire[76:]
        got = shortcuts.load(wire, None, None, check_time=False)
        ctx.event('no key given')
    ctx.eq(gen.content(got), gen.content(msg), 'content')
    ctx.distinct(type_id)


def respell(rng, v, budget):
    """`v` in another valid CBOR encoding; budget: how many heads to widen."""
    def head(major, n):
        plain = ref.cbor_enc(n)[1:] if n >= 24 else b''
        if budget[0] > 0 and n < 1 << 64 and rng.random() < 0.5:
            wider = [i for i in range(4) if 1 << i > len(plain)]
            if wider:
                budget[0] -= 1
                i = rng.choice(wider)
                return bytes([major << 5 | 24 + i]) + n.to_bytes(1 << i, 'big')
        return ref._head(major, n)

    if isinstance(v, bool) or v is None:
        return ref.cbor_enc(v)
    if isinstance(v, int):
        if 0 <= v < 1 << 64:
            return head(0, v)
        if -1 << 64 <= v < 0:
            return head(1, -1 - v)
        return ref.cbor_enc(v)
    if isinstance(v, bytes):
        return head(2, len(v)) + v
    if isinstance(v, str):
        raw = v.encode()
        return head(3, len(raw)) + raw
    if isinstance(v, list):
        return head(4, len(v)) + b''.join(
            respell(rng, x, budget) for x in v)
    if isinstance(v, dict):
        return head(5, len(v)) + b''.join(
            respell(rng, k, budget) + respell(rng, x, budget)
            for k, x in v.items())
    return ref.cbor_enc(v)


def respelt(ctx):
    """Other bytes that decode to the same fields are other bytes."""
    rng = ctx.rng
    type_id = SIGNED[ctx.index % len(SIGNED)]
    t = spec.TYPES[type_id]
    maker, msg = build(ctx, type_id)
    sender, receiver = maker.cast.provider, maker.cast.requestor
    wire = shortcuts.dump(msg, sender.priv, None)
    shortcuts.load(wire, receiver.priv, sender.pub, check_time=False)
    fr = ref.Frame(wire)
    trailer = wire[76 + len(fr.body):]
    slots = fr.slots()
    bodies = {
        'length': respell(rng, slots, [1]),
        'lengths': respell(rng, slots, [1000]),
        'trailing zero': fr.body + b'\0',
        'trailing none': fr.body + b'\xf6',
        'twice': fr.body + fr.body,
        'tag': b'\xd9\xd9\xf7' + fr.body,
        'indefinite': b'\x9f' + b''.join(
            ref.cbor_enc(x) for x in slots) + b'\xff',
        'unknown pair': ref.cbor_enc(slots + [['x_' + gen.text(rng), None]]),
    }
    if slots:
        bodies['map'] = ref.cbor_enc(dict((k, v) for k, v in slots))
        bodies['repeated pair'] = ref.cbor_enc([slots[0]] + slots)
        shuffled = list(slots)
        rng.shuffle(shuffled)
        bodies['order'] = ref.cbor_enc(shuffled)
        bodies['none left out'] = ref.cbor_enc(
            [p for p in slots if p[1] is not None])
    for name, body in bodies.items():
        if body == fr.body:
            continue
        for encrypted in (False, True):
            if encrypted and not (t.encrypt and rng.random() < 0.3):
                continue
            bad = ref.frame(
                type_id, fr.timestamp, encrypted, fr.sig,
                ref.ecies_encrypt(body, receiver.pub) if encrypted else body,
            )
            bad = bad[:len(bad) - (32 if type_id == 0 else 0)] + trailer
            rejected(ctx, bad, receiver.priv, sender.pub,
                     '%s accepted with its body respelt (%s)' % (
                         t.name, name), 'respelt:' + name)
            ctx.event('respelt')
            ctx.distinct(type_id, name, encrypted)


def large(ctx):
    """Frames of tens and hundreds of kilobytes: every byte counts."""
    rng = ctx.rng
    maker, msg = build(ctx, 1)
    n = rng.choice([4000, 17000, 66000, 70000, 140000, 300000])
    kind = rng.randrange(3)
    msg.rand_val = (
        'x' * n if kind == 0 else bytes(n) if kind == 1 else
        [rng.getrandbits(14) for _ in range(n // 3)])
    sender = maker.cast.provider
    wire = shortcuts.dump(msg, sender.priv, None)
    got = shortcuts.load(wire, None, sender.pub, check_time=False)
    ctx.check(got.rand_val == msg.rand_val, 'the genuine large frame')
    spots = {len(wire) - 1, len(wire) - 2, len(wire) - 40, 100}
    spots |= {rng.randrange(76, len(wire)) for _ in range(8)}
    spots |= {x for b in (12, 13, 14, 15, 16, 17, 18) for x in
              ((1 << b) - 1, 1 << b, 76 + (1 << b)) if x < len(wire)}
    for i in sorted(spots):
        bad = bytearray(wire)
        bad[i] ^= 1
        rejected(ctx, bytes(bad), None, sender.pub,
                 'accepted with byte %d of %d changed' % (i, len(wire)),
                 'tamper:large')
        ctx.event('large')
    ctx.distinct(n, kind)


SCENARIOS = [
    Scenario('tamper', tamper, 51 * 12, 51 * 120, need={
        'type': 300, 'time': 500, 'signature': 2000, 'payload': 2000}),
    Scenario('attribution', attribution, 51 * 12, 51 * 150,
             need={'rejected': 2000}),
    Scenario('hello_version', hello_version, 60, 3000, need={
        'versions': 900}),
    Scenario('splice', splice, 51 * 10, 51 * 120, need={'rejected': 1000}),
    Scenario('exempt', exempt, 250, 3000, need={
        'unsigned types': 60, 'no key given': 60}),
    Scenario('respelt', respelt, 51 * 6, 51 * 80, need={'respelt': 1500}),
    Scenario('large', large, 24, 600, need={'large': 300}, max_s=120),
    Scenario('crowd', crowd(tamper, attribution), 32, 1200, need={
        'crowds': 16, 'switches': 20}, max_s=120),
]
