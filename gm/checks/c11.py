"""The decoder is total: any bytes give a message or a MessageError."""
import time

from golem_messages import exceptions, shortcuts
from golem_messages.message import base

from gm import gen, junk, ref, spec
from gm.core import Scenario

PROPERTY = 'C11'
RULE = ('A case takes a valid frame of some type and damages its decoded'
        ' payload (junk of any CBOR type anywhere, moved, dropped, duplicated,'
        ' deeply nested parts), its bytes, or its plain text before'
        ' encryption, or makes up bytes; the frame is signed by the expected'
        ' sender, unsigned, or addressed to us. Distinct: (type, damage,'
        ' transport, outcome).')
TYPE_IDS = sorted(spec.TYPES)
VERSION = '2.24.3'
SLOW = 20.0


def attempt(ctx, raw, priv, pub, what, cast):
    """One load under observation; returns the message or None."""
    t0 = time.time()
    check_time = ctx.rng.random() < 0.1
    try:
        got = shortcuts.load(raw, priv, pub, check_time)
    except exceptions.MessageError as e:
        ctx.event('refused')
        try:
            str(e)
            repr(e)
        except Exception as err:
            ctx.fail('a refusal can not be printed: %r (%s)' % (err, what),
                     'unprintable', wire=bytes(raw).hex()[:20000])
        return None
    except Exception as e:
        ctx.fail('load() raised %s: %s (%s)' % (
            type(e).__name__, e, what), 'escaped', wire=bytes(raw).hex(),
            error=repr(e))
    finally:
        ctx.event('oracle')
        took = time.time() - t0
        if took > SLOW:
            ctx.fail('load() took %.1f s on %d bytes' % (took, len(raw)),
                     'slow', wire=bytes(raw).hex())
    ctx.event('loaded')
    type_id = int.from_bytes(raw[:2], 'big')
    ctx.check(type(got) is gen.cls_of(type_id), 'load() returned %s' % type(
        got).__name__, 'class')
    ctx.eq(got.timestamp, int.from_bytes(raw[2:10], 'big'), 'timestamp',
           'header')
    # it can be looked at, compared and passed on
    try:
        text = repr(got)
        ctx.check(isinstance(text, str), 'repr')
        try:
            got == got      # noqa pylint: disable=comparison-with-itself
            got.slots()
            got.get_short_hash()
        except exceptions.MessageError:
            ctx.event('not dumpable')
            return got
        again = shortcuts.dump(got, None, None)
    except Exception as e:
        ctx.fail('an accepted %s raised %s: %s (%s)' % (
            type(got).__name__, type(e).__name__, e, what), 'unusable',
            wire=bytes(raw).hex(), error=repr(e))
    ctx.eq(again[:10] + again[11:11 + len(got.sig)],
           raw[:10] + raw[11:11 + len(got.sig)],
           'header or signature changed on the way through', 'passed on')
    return got


def valid(ctx, type_id, **kw):
    rng = ctx.rng
    maker = gen.Maker(rng, ts=rng.randint(1500000000, 1900000000), **kw)
    msg = maker.make(type_id, **({'sign': False} if type_id == 2002 else {}))
    return maker, msg


def transports(ctx, type_id, ts, payload, cast):
    """The payload as (wire, own key, expected sender, label)."""
    rng = ctx.rng
    t = spec.TYPES[type_id]
    version = VERSION if type_id == 0 else None
    signed = ref.sign(cast.provider.priv, ref.content_hash(
        type_id, ts, payload, version))
    how = rng.choice(['unsigned', 'signed', 'encrypted', 'no key'])
    if how == 'unsigned':
        return (ref.frame(type_id, ts, False, ref.ZERO_SIG, payload, version),
                cast.requestor.priv, None, how)
    if how == 'signed' or not t.encrypt:
        return (ref.frame(type_id, ts, False, signed, payload, version),
                cast.requestor.priv, cast.provider.pub, how)
    if how == 'no key':
        return (ref.frame(type_id, ts, True, signed, payload, version),
                None, None, how)
    body = ref.ecies_encrypt(payload, cast.requestor.pub)
    return (ref.frame(type_id, ts, True, signed, body, version),
            cast.requestor.priv, cast.provider.pub, how)


def structure(ctx):
    rng = ctx.rng
    type_id = TYPE_IDS[ctx.index % len(TYPE_IDS)]
    maker, msg = valid(ctx, type_id)
    slots = ref.cbor_dec(ref.cbor_enc(gen.plain_slots(msg)))
    kinds = []
    for _ in range(6):
        bad, kinds = slots, []
        for _ in range(rng.choice([1, 1, 1, 2, 3, 5])):
            bad, kind = junk.damage(rng, bad)
            kinds.append(kind)
        try:
            payload = ref.cbor_enc(bad)
        except Exception:
            continue
        wire, priv, pub, how = transports(
            ctx, type_id, msg.timestamp, payload, maker.cast)
        got = attempt(ctx, wire, priv, pub, kinds, maker.cast)
        ctx.event('structures')
        ctx.distinct(type_id, kinds[-1], how, got is not None)
    ctx.sample((spec.TYPES[type_id].name, kinds))


def each_field(ctx):
    """Every kind of junk in every field, and in parts of its value."""
    rng = ctx.rng
    type_id = TYPE_IDS[ctx.index % len(TYPE_IDS)]
    maker, msg = valid(ctx, type_id)
    slots = ref.cbor_dec(ref.cbor_enc(gen.plain_slots(msg)))
    version = VERSION if type_id == 0 else None
    places = [(i, 1) for i in range(len(slots))]
    deeper = [p for p in junk.paths(slots) if len(p) > 2]
    rng.shuffle(deeper)
    for path in places + deeper[:12]:
        for value in junk.JUNK + [junk.DEEP]:
            if len(path) > 2 and rng.random() < 0.7:
                continue
            try:
                payload = ref.cbor_enc(junk.put(slots, path, value))
            except Exception:       # not to be said in CBOR
                continue
            attempt(ctx, ref.frame(type_id, msg.timestamp, False,
                                   ref.ZERO_SIG, payload, version),
                    None, None, (path, value), maker.cast)
            ctx.event('fields')
        ctx.distinct(type_id, path[:2])


def huge(ctx):
    """Integers of more digits than Python agrees to print, anywhere."""
    rng = ctx.rng
    type_id = TYPE_IDS[ctx.index % len(TYPE_IDS)]
    maker, msg = valid(ctx, type_id)
    slots = ref.cbor_dec(ref.cbor_enc(gen.plain_slots(msg)))
    version = VERSION if type_id == 0 else None
    paths = [(i, 1) for i in range(len(slots))]
    deeper = [p for p in junk.paths(slots) if len(p) > 2]
    rng.shuffle(deeper)
    for path in paths + deeper[:30]:
        bits = rng.choice([14280, 14285, 14290, 20000, 60000])
        value = rng.choice([1, -1]) << bits
        shape = rng.randrange(4)
        value = [value, [value], {'a': value}, [[1, value], 'x']][shape]
        try:
            payload = ref.cbor_enc(junk.put(slots, path, value))
        except Exception:           # not to be said in CBOR
            continue
        attempt(ctx, ref.frame(type_id, msg.timestamp, False,
                               ref.ZERO_SIG, payload, version),
                None, None, ('huge', path, bits, shape), maker.cast)
        ctx.event('huge')
        ctx.distinct(type_id, path[:2], 'huge')


def headers(ctx):
    """Any header at all before a body that is all right."""
    rng = ctx.rng
    type_id = TYPE_IDS[ctx.index % len(TYPE_IDS)]
    maker, msg = valid(ctx, type_id)
    cast = maker.cast
    wire = shortcuts.dump(msg, cast.provider.priv, None)
    for _ in range(12):
        number = rng.choice([
            rng.randrange(1 << 16), rng.choice(TYPE_IDS),
            rng.choice(TYPE_IDS) + rng.choice([-1, 1]), 0, 5, 65535, 32768])
        when = rng.choice([
            msg.timestamp, rng.getrandbits(64), rng.getrandbits(40), 0, 1,
            2**63, 2**64 - 1, 1262304000, 1262304001, 32819212800,
            32819212799, 253402300800, int(time.time())])
        bad = (number % (1 << 16)).to_bytes(2, 'big') + when.to_bytes(
            8, 'big') + bytes([rng.choice([0, 0, 1, 2, 255])]) + wire[11:]
        got = attempt(ctx, bad, rng.choice([None, cast.requestor.priv]),
                      rng.choice([None, cast.provider.pub]),
                      (number, when), cast)
        ctx.event('headers')
        ctx.distinct(number, got is not None)


def encoding(ctx):
    """Damage below the structure: CBOR bytes."""
    rng = ctx.rng
    type_id = TYPE_IDS[ctx.index % len(TYPE_IDS)]
    maker, msg = valid(ctx, type_id)
    payload = ref.cbor_enc(gen.plain_slots(msg))
    for _ in range(8):
        bad = bytearray(payload)
        how = rng.choice(['flip', 'byte', 'cut', 'insert', 'random', 'append',
                          'head'])
        if how == 'flip':
            for _ in range(rng.choice([1, 2, 8])):
                bad[rng.randrange(len(bad))] ^= 1 << rng.randrange(8)
        elif how == 'byte':
            for _ in range(rng.choice([1, 3])):
                bad[rng.randrange(len(bad))] = rng.choice([
                    0, 0x1b, 0x3b, 0x5b, 0x5f, 0x7b, 0x7f, 0x9b, 0x9f, 0xbb,
                    0xbf, 0xc0, 0xc1, 0xc2, 0xc3, 0xd8, 0xdb, 0xe0, 0xf7,
                    0xf8, 0xf9, 0xfa, 0xfb, 0xff])
        elif how == 'cut':
            del bad[rng.randrange(len(bad)):]
            bad = bad or bytearray(b'\xf6')
        elif how == 'insert':
            i = rng.randrange(len(bad) + 1)
            bad[i:i] = bytes(rng.getrandbits(8)
                             for _ in range(rng.randrange(1, 9)))
        elif how == 'random':
            bad = bytearray(rng.getrandbits(8)
                            for _ in range(rng.randrange(1, 60)))
        elif how == 'append':
            bad += bytes(rng.getrandbits(8)
                         for _ in range(rng.randrange(1, 40)))
        else:
            bad = bytearray(rng.choice(HEADS)) + bad
        wire, priv, pub, tr = transports(ctx, type_id, msg.timestamp,
                                         bytes(bad), maker.cast)
        got = attempt(ctx, wire, priv, pub, how, maker.cast)
        ctx.event('encodings')
        ctx.distinct(type_id, how, tr, got is not None)


HEADS = [b'\x9b' + b'\xff' * 8, b'\xbb' + b'\xff' * 8, b'\x5b' + b'\x7f' * 8,
         b'\x7b' + b'\x7f' * 8, b'\x9f', b'\xbf', b'\x5f', b'\x7f',
         b'\x81' * 300, b'\xa1\x01' * 200, b'\xc1' * 50, b'\xd8\x20' * 20,
         b'\xc2\x5a\x00\x00\x10\x00' + b'\xff' * 4096, b'\xff', b'\x1f']


def wires(ctx):
    """Damage to complete frames, and bytes out of nowhere."""
    rng = ctx.rng
    type_id = TYPE_IDS[ctx.index % len(TYPE_IDS)]
    maker, msg = valid(ctx, type_id)
    cast = maker.cast
    wire = shortcuts.dump(msg, cast.provider.priv,
                          rng.choice([None, cast.requestor.pub]))
    for _ in range(8):
        bad = bytearray(wire)
        how = rng.choice(['flip', 'cut', 'random', 'swap type', 'tail',
                          'flag', 'random payload'])
        if how == 'flip':
            bad[rng.randrange(len(bad))] ^= 1 << rng.randrange(8)
        elif how == 'cut':
            del bad[rng.randrange(len(bad)):]
        elif how == 'random':
            bad = bytearray(rng.getrandbits(8)
                            for _ in range(rng.randrange(300)))
        elif how == 'swap type':
            bad[:2] = rng.choice(TYPE_IDS).to_bytes(2, 'big')
        elif how == 'tail':
            bad += bytes(rng.getrandbits(8)
                         for _ in range(rng.randrange(1, 50)))
        elif how == 'flag':
            bad[10] = rng.choice([0, 1, 2, 255])
        else:
            bad[76:] = bytes(rng.getrandbits(8)
                             for _ in range(rng.randrange(1, 200)))
        priv = rng.choice([None, cast.requestor.priv, cast.other.priv])
        pub = rng.choice([None, cast.provider.pub, cast.other.pub])
        # without a receiving key an encrypted body is taken as it is
        got = attempt(ctx, bytes(bad), priv, pub, how, cast)
        ctx.event('wires')
        ctx.distinct(type_id, how, priv is None, pub is None,
                     got is not None)
    # and the original still loads
    got = shortcuts.load(wire, cast.requestor.priv, cast.provider.pub,
                         check_time=False)
    ctx.eq(gen.describe(got), gen.describe(msg), 'content afterwards',
           'afterwards')


def decryptors(ctx):
    """Whatever goes wrong in the caller's decryption function is reported as
    a MessageError; a MessageError of its own comes through unchanged."""
    rng = ctx.rng
    enc = [t for t in TYPE_IDS if spec.TYPES[t].encrypt]
    type_id = enc[ctx.index % len(enc)]
    maker, msg = valid(ctx, type_id)
    wire = shortcuts.dump(msg, None, maker.cast.requestor.pub)
    for exc in (ValueError('x'), KeyError('k'), AssertionError(), OSError(),
                RuntimeError('r'), TypeError(), ZeroDivisionError()):
        def decrypt(_payload):
            raise exc       # noqa pylint: disable=cell-var-from-loop
        e = ctx.raises(exceptions.MessageError,
                       lambda: base.Message.deserialize(
                           wire, decrypt, False), repr(exc), 'decryptor')
        ctx.check(isinstance(e, exceptions.DecryptionError), 'kind: %r' % e,
                  'decryptor')
        ctx.event('failures')
    for exc in (exceptions.DecryptionError('d'), exceptions.FieldError('f'),
                exceptions.InvalidKeys('k')):
        e = ctx.raises(exceptions.MessageError,
                       lambda: base.Message.deserialize(
                           wire, decrypt, False), repr(exc), 'decryptor')
        ctx.check(e is exc, 'own error not passed through: %r' % e,
                  'decryptor')
    for answer in (b'', b'\xff', None, 5, 'text', b'\xf6', [], b'\x9f'):
        try:
            base.Message.deserialize(wire, lambda _: answer, False)
        except exceptions.MessageError:
            pass
        ctx.event('answers')
    ctx.distinct(type_id)


SCENARIOS = [
    Scenario('structure', structure, 63 * 40, 63 * 900, need={
        'structures': 9000, 'refused': 1500, 'loaded': 4000}),
    Scenario('each_field', each_field, 63, 63 * 20, need={
        'fields': 9000, 'refused': 4000, 'loaded': 4000}),
    Scenario('huge', huge, 63 * 2, 63 * 40, need={
        'huge': 1000, 'refused': 100, 'loaded': 100}),
    Scenario('headers', headers, 63 * 6, 63 * 100, need={
        'headers': 4000, 'refused': 2000, 'loaded': 50}),
    Scenario('encoding', encoding, 63 * 20, 63 * 400, need={
        'encodings': 6000, 'refused': 3000, 'loaded': 200}),
    Scenario('wires', wires, 63 * 12, 63 * 250, need={
        'wires': 4000, 'refused': 2500, 'loaded': 300}),
    Scenario('decryptors', decryptors, 61 * 2, 61 * 20, need={
        'failures': 300, 'answers': 300}),
]
