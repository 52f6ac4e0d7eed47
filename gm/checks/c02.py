"""Wire layout: byte-exact against an independent encoder and decoder."""
import golem_messages
from golem_messages import exceptions, shortcuts

from gm import gen, ref, spec
from gm.core import Scenario
from gm.crowd import crowd
from gm.checks.c01 import pick_ts

PROPERTY = 'C02'
RULE = ('A case dumps one seeded message and compares the bytes to a frame'
        ' assembled by an independent implementation from the pinned protocol'
        ' table (decrypting independently when encrypted), or loads a frame'
        ' assembled independently (slots shuffled, dropped or added) and'
        ' compares the attributes. Distinct: (direction, type, signed,'
        ' encrypted, variation).')
TYPE_IDS = sorted(spec.TYPES)
# names of slots that no message has, some of which mean something elsewhere
UNHEARD = ['unheard_of', 'zzz', '', '_version', 'sig', 'header', 'timestamp',
           'encrypted', 'slots', '__class__', 'TYPE', 'deserialized']


def make(ctx):
    rng = ctx.rng
    type_id = TYPE_IDS[ctx.index % len(TYPE_IDS)]
    maker = gen.Maker(rng, sign=rng.choice(['all', 'mixed', 'none']),
                      ts=pick_ts(rng), hostile=rng.choice([0.1, 0.5]))
    msg = maker.make(type_id, **({'sign': False} if type_id == 2002 else {}))
    return type_id, spec.TYPES[type_id], maker, msg


def dumped(ctx):
    rng = ctx.rng
    type_id, t, maker, msg = make(ctx)
    sender, receiver = distinct_pair(maker)
    signed, encrypted = rng.random() < 0.6, rng.random() < 0.5
    payload = ref.cbor_enc(gen.plain_slots(msg))
    ts = msg.timestamp
    wire = shortcuts.dump(msg, sender.priv if signed else None,
                          receiver.pub if encrypted else None)
    ctx.check(isinstance(wire, bytes), 'dump() returned no bytes')
    fr = ref.Frame(wire)
    flag = encrypted and t.encrypt
    ctx.eq((fr.type_id, fr.timestamp), (type_id, ts), 'header', 'header')
    ctx.eq(wire[10], int(flag), 'encrypted flag', 'flag')
    version = golem_messages.__version__ if type_id == 0 else None
    if signed and t.sign:
        digest = ref.content_hash(type_id, ts, payload, version)
        ctx.check(ref.signed_by(fr.sig, digest, sender.pub),
                  'the signature is not over sha1(type, timestamp, payload)',
                  'signature')
        ctx.event('signatures')
    else:
        ctx.eq(fr.sig, ref.ZERO_SIG, 'placeholder signature', 'signature')
    body = fr.body
    if flag:
        body = ref.ecies_decrypt(fr.body, receiver.priv)
        ctx.check(body is not None, 'body does not decrypt', 'ecies')
        ctx.event('decrypted')
    ctx.eq(body, payload, 'payload bytes of %s' % t.name, 'payload')
    if not flag:
        ctx.eq(wire, ref.frame(type_id, ts, False, fr.sig, payload, version),
               'frame', 'frame')
    if type_id == 0:
        ctx.eq(fr.version, version, 'version trailer', 'trailer')
        raw = version.encode()
        ctx.eq(fr.trailer, bytes([len(raw)]) + raw + b'\0' * (31 - len(raw)),
               'version trailer bytes', 'trailer')
    ctx.event('frames')
    ctx.distinct('out', type_id, signed, encrypted)
    ctx.sample((t.name, wire[:90].hex()))


def distinct_pair(maker):
    return maker.cast.provider, maker.cast.requestor


def resembling(rng, names):
    """A name that is none, though it looks like one."""
    name = rng.choice(names) if names else 'x'
    other = rng.choice([
        name + ' ', ' ' + name, name + '\n', '_' + name, name.upper(),
        name.title(), name.encode(), name + '\0', '-' + name, name[:-1],
        name.replace('_', '-'), '\ufeff' + name, 0, 1, -1, None, True, b'',
        1.5, '', 'slots', 'deserialized', '__class__', '_type'])
    return other if other not in names else '?' + name


def foreign(ctx):
    """Frames written by another implementation."""
    rng = ctx.rng
    type_id, t, maker, msg = make(ctx)
    sender, receiver = distinct_pair(maker)
    slots = gen.plain_slots(msg)
    how = rng.choice(['as is', 'shuffled', 'extra', 'dropped', 'tuple sig'])
    want = dict(gen.content(msg))
    if how == 'shuffled':
        rng.shuffle(slots)
    elif how == 'extra':
        slots.insert(rng.randrange(len(slots) + 1),
                     ['_version' if type_id == 0 else
                      rng.choice([n for n in UNHEARD if n not in t.slots]),
                      rng.choice([gen.freeform(rng), 'x', '0.0.1',
                                  b'\1' * 65])])
        for _ in range(rng.randrange(3)):
            slots.insert(rng.randrange(len(slots) + 1), [
                resembling(rng, t.slots), gen.freeform(rng)])
    elif how == 'dropped':
        free = [s for s in t.slots if droppable(type_id, s)]
        if free:
            gone = rng.choice(free)
            slots = [s for s in slots if s[0] != gone]
            want[gone] = gen.canon(ABSENT.get((type_id, gone)))
            ctx.event('dropped')
    payload = ref.cbor_enc(slots)
    ts = msg.timestamp
    version = golem_messages.__version__ if type_id == 0 else None
    if type_id == 0 and rng.random() < 0.5:
        version = '%s.%d' % (version.rpartition('.')[0], rng.randrange(1, 99))
    signed = t.sign and rng.random() < 0.7
    encrypted = t.encrypt and rng.random() < 0.5
    sig = ref.sign(sender.priv, ref.content_hash(
        type_id, ts, payload, version)) if signed else ref.ZERO_SIG
    body = ref.ecies_encrypt(payload, receiver.pub) if encrypted else payload
    wire = ref.frame(type_id, ts, encrypted, sig, body, version)
    got = shortcuts.load(wire, receiver.priv, sender.pub if signed else None,
                         check_time=False)
    ctx.eq(type(got).__name__, t.name.split('.')[1], 'class', 'class')
    ctx.eq((got.header.type_, got.timestamp, bool(got.encrypted), got.sig),
           (type_id, ts, bool(encrypted), sig), 'header', 'header')
    if type_id == 0:
        ctx.eq(got._version, version, 'version of Hello', 'trailer')
    for slot, value in gen.content(got):
        if value != want[slot]:
            ctx.fail('slot %s of %s read wrongly (%s)' % (slot, t.name, how),
                     'slot', got=value, want=want[slot])
    # passed on, it ends as it came
    ctx.eq(shortcuts.dump(got, None, None), ref.frame(
        type_id, ts, False, sig, ref.cbor_enc(gen.plain_slots(got)),
        version), 'frame passed on', 'frame')
    ctx.event('frames')
    ctx.distinct('in', type_id, signed, encrypted, how)


def edited(ctx):
    """The bytes are those of what the message holds now, whatever it held
    when it was loaded, dumped, hashed or signed before."""
    rng = ctx.rng
    type_id, t, maker, msg = make(ctx)
    if not t.slots:
        return
    sender, receiver = distinct_pair(maker)
    version = golem_messages.__version__ if type_id == 0 else None
    if rng.random() < 0.7:
        try:
            msg = shortcuts.load(
                shortcuts.dump(msg, sender.priv, receiver.pub),
                receiver.priv, sender.pub, check_time=False)
        except exceptions.ValidationError:
            ctx.event('not loadable')
            msg.sig = None
    steps = []
    for _ in range(rng.randrange(2, 5)):
        for op in rng.sample(['dump', 'hash', 'slots', 'verify'],
                             rng.randrange(3)):
            if op == 'dump':
                shortcuts.dump(msg, None, rng.choice([None, receiver.pub]))
            elif op == 'hash':
                msg.get_short_hash()
            elif op == 'slots':
                msg.slots()
            else:
                try:
                    msg.verify_signature(sender.pub)
                except exceptions.InvalidSignature:
                    pass
        # something else in it, at any depth
        path, m = rng.choice([x for x in gen.walk(msg)])
        tid = gen.type_id_of(m)
        slots = [s for s in spec.TYPES[tid].slots
                 if s not in spec.TYPES[tid].msgs]
        slot = rng.choice(slots) if slots else None
        if slot is not None and tid != 2002:
            setattr(m, slot, maker.slot_value(tid, slot, m.timestamp))
        elif slot is not None:
            m.compute_task_def['resources'].append(rng.choice('abc'))
        steps.append((path, slot))
        how = rng.choice(['as is', 'as is', 'unsigned', 'signed'])
        if how != 'as is' or msg.sig is None:
            msg.sig = None
        kept = msg.sig
        key = sender if how == 'signed' else None
        encrypted = rng.random() < 0.3
        wire = shortcuts.dump(msg, key and key.priv,
                              receiver.pub if encrypted else None)
        fr = ref.Frame(wire)
        payload = ref.cbor_enc(gen.plain_slots(msg))
        body = fr.body
        if encrypted and t.encrypt:
            body = ref.ecies_decrypt(body, receiver.priv)
        ctx.eq(body, payload, 'payload of %s after %s of %r changed' % (
            t.name, slot, path), 'stale')
        if how == 'signed' and t.sign:
            ctx.check(ref.signed_by(fr.sig, ref.content_hash(
                type_id, msg.timestamp, payload, version), sender.pub),
                'signed something else', 'stale')
        elif kept is not None:
            ctx.eq(fr.sig, kept, 'signature', 'stale')
        ctx.event('edited')
    ctx.distinct('edit', type_id, tuple(steps))


def large(ctx):
    """Contents of a megabyte and more."""
    rng = ctx.rng
    tid, slot = rng.choice([(1, 'rand_val'), (2015, 'err'),
                            (3008, 'options'), (2001, 'extra_data'),
                            (2004, 'extra_data'), (1015, 'conn_id')])
    size = rng.choice([2**16 - 1, 2**16, 2**20 - 7, 2**20, 2**20 + 1,
                       3 * 2**20 + 5])
    block = rng.getrandbits(8 * 1024).to_bytes(1024, 'big')
    blob = (block * (size // 1024 + 1))[:size]
    maker = gen.Maker(rng, sign='none')
    msg = maker.make(tid, **{slot: [blob, 'end']})
    sender, receiver = distinct_pair(maker)
    encrypted = rng.random() < 0.5
    payload = ref.cbor_enc(gen.plain_slots(msg))
    wire = shortcuts.dump(msg, sender.priv,
                          receiver.pub if encrypted else None)
    fr = ref.Frame(wire)
    ctx.check(ref.signed_by(fr.sig, ref.content_hash(
        tid, msg.timestamp, payload), sender.pub),
        'the signature is over something else', 'signature')
    body = fr.body
    if encrypted and spec.TYPES[tid].encrypt:
        body = ref.ecies_decrypt(body, receiver.priv)
    ctx.check(body == payload, 'payload of %d bytes differs' % len(payload),
              'payload')
    back = shortcuts.load(wire, receiver.priv, sender.pub, check_time=False)
    ctx.check(getattr(back, slot) == [blob, 'end'], '%d bytes read wrongly'
              % size, 'slot')
    # and every part of it counts
    for at in (len(payload) - 5, rng.randrange(2**15, len(payload) - 8),
               len(payload) - rng.randrange(5, 5000)):
        bad = bytearray(payload)
        bad[at] ^= 1
        try:
            shortcuts.load(ref.frame(
                tid, msg.timestamp, False, fr.sig, bytes(bad)), None,
                sender.pub, check_time=False)
        except exceptions.MessageError:
            ctx.event('refused')
        else:
            ctx.fail('byte %d of %d changed under the signature' % (
                at, len(bad)), 'large:forged')
    ctx.event('large')
    ctx.distinct('large', tid, size, encrypted)


# what reading a frame without the slot gives (None unless listed)
ABSENT = {(1004, 'peers'): [], (1006, 'tasks'): [],
          (1009, 'resource_peers'): [], (1011, 'gossip'): [],
          (2001, 'num_subtasks'): 1, (2001, 'concent_enabled'): False,
          (2002, 'concent_enabled'): False}
REQUIRED_AT_LOAD = {
    (2002, s) for s in ('requestor_id', 'requestor_ethereum_public_key',
                        'compute_task_def', 'want_to_compute_task', 'ethsig')
} | {(2010, 'payment_ts')}


def droppable(type_id, slot):
    t = spec.TYPES[type_id]
    return (slot not in t.msgs and slot != 'reason'
            and (type_id, slot) not in REQUIRED_AT_LOAD)


SCENARIOS = [
    Scenario('dumped', dumped, 63 * 50, 63 * 700,
             need={'frames': 63 * 40, 'signatures': 500, 'decrypted': 500}),
    Scenario('foreign', foreign, 63 * 50, 63 * 700,
             need={'frames': 63 * 40, 'dropped': 200}),
    Scenario('edited', edited, 63 * 12, 63 * 300, need={'edited': 1500}),
    Scenario('large', large, 24, 300, need={'large': 24, 'refused': 70},
             max_s=60),
    Scenario('crowd', crowd(dumped, foreign), 32, 1200, need={
        'crowds': 16, 'switches': 20}, max_s=120),
]
