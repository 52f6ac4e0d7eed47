"""A task assignment is accepted only if it binds its requestor."""
from golem_messages import exceptions, shortcuts
from golem_messages.message import tasks

from gm import gen, ref
from gm.core import Scenario
from gm.crowd import crowd

PROPERTY = 'C17'
RULE = ('A case dumps a TaskToCompute with one thing changed (or none) in its'
        ' ethereum signature, what that signature covers, the ids, the'
        ' requestor_id, the price or the size, and compares load() with an'
        ' own verifier. Distinct: (change, verdict, key).')


def build(ctx):
    rng = ctx.rng
    cast = gen.Cast(rng)
    maker = gen.Maker(rng, cast=cast, sign='mixed',
                      ts=rng.randint(1500000000, 1900000000))
    ttc = maker.ttc()
    ttc.sig = None
    return maker, ttc


def load(cast, ttc):
    wire = shortcuts.dump(ttc, cast.requestor.priv, cast.provider.pub)
    return shortcuts.load(wire, cast.provider.priv, cast.requestor.pub,
                          check_time=False)


def node_of(id_):
    digits = id_.lower().replace('-', '')
    return digits[-12:]


def ethsig_valid(ttc):
    wtct = ttc.want_to_compute_task
    sig = ttc.ethsig
    return isinstance(sig, bytes) and ref.signed_by(
        sig, gen.message_hash(wtct),
        bytes.fromhex(ttc.requestor_ethereum_public_key))


# --- signature -----------------------------------------------------------

def sg_none(ctx, maker, ttc):
    pass


def sg_key(ctx, maker, ttc):
    role = ctx.rng.choice(['provider', 'requestor', 'concent', 'other',
                           'provider_eth', 'requestor_eth'])
    ttc.ethsig = ref.sign(maker.cast.keys[role].priv,
                          gen.message_hash(ttc.want_to_compute_task))


def sg_pub(ctx, maker, ttc):
    ttc.requestor_ethereum_public_key = ctx.rng.choice(
        list(maker.cast.keys.values())).hex


def sg_covers(ctx, maker, ttc):
    rng = ctx.rng
    what = rng.randrange(4)
    digest = (
        gen.message_hash(ttc), b'\0' * 20,
        ref.content_hash(2002, ttc.want_to_compute_task.timestamp,
                         ref.cbor_enc(gen.plain_slots(
                             ttc.want_to_compute_task))),
        gen.message_hash(ttc.want_to_compute_task))[what]
    ttc.ethsig = ref.sign(maker.cast.requestor_eth.priv, digest)


def sg_offer(ctx, maker, ttc):
    """The offer is another one than the one signed for."""
    rng = ctx.rng
    wtct = ttc.want_to_compute_task
    kind = rng.randrange(5)
    if kind == 0:
        wtct.price += 1
    elif kind == 1:
        wtct.provider_ethereum_address = maker.cast.other.address
    elif kind == 2:
        wtct.provider_public_key = maker.cast.other.hex
    elif kind == 3:
        h = wtct.header
        wtct.header = type(h)(h.type_, h.timestamp + 1, h.encrypted)
    else:
        wtct.task_header.max_price = (wtct.task_header.max_price or 0) + 1


def sg_unsigned(ctx, maker, ttc):
    """Whose signature the offer carries is not covered."""
    wtct = ttc.want_to_compute_task
    wtct.sig = ctx.rng.choice([None, ref.ZERO_SIG, ttc.ethsig])


def sg_bytes(ctx, maker, ttc):
    rng = ctx.rng
    good = bytearray(ttc.ethsig)
    kind = rng.randrange(6)
    if kind == 0:
        good[rng.randrange(65)] ^= 1 << rng.randrange(8)
        ttc.ethsig = bytes(good)
    elif kind == 1:
        ttc.ethsig = bytes(good[:rng.randrange(65)])
    elif kind == 2:
        ttc.ethsig = bytes(good) + b'\0'
    elif kind == 3:
        ttc.ethsig = ref.ZERO_SIG
    elif kind == 4:
        ttc.ethsig = ref.malleate(bytes(good))
    else:
        ttc.ethsig = bytes(good[32:64] + good[:32] + good[64:])


SIG_CHANGES = [sg_none, sg_key, sg_pub, sg_covers, sg_offer, sg_unsigned,
               sg_bytes]


def signature(ctx):
    maker, ttc = build(ctx)
    change = SIG_CHANGES[ctx.index % len(SIG_CHANGES)]
    if ctx.rng.random() < 0.5:
        # asked before, when all was well
        try:
            ttc.verify_ethsig()
            load(maker.cast, gen.clone(ttc))
            ctx.event('asked before')
        except exceptions.MessageError:
            pass
    change(ctx, maker, ttc)
    want = ethsig_valid(ttc)
    label = change.__name__
    try:
        live = ttc.verify_ethsig()
    except exceptions.InvalidSignature:
        live = False
    ctx.check(live is want, 'verify_ethsig after %s: %r' % (label, live),
              'ethsig:live accepted' if live else 'ethsig:live refused')
    if want:
        back = load(maker.cast, ttc)
        ctx.eq(gen.describe(back), gen.describe(ttc), 'loaded differs',
               'ethsig:content')
        ctx.event('accepted')
    else:
        ctx.raises(exceptions.InvalidSignature,
                   lambda: load(maker.cast, ttc),
                   'ethereum signature spoilt by %s' % label,
                   'ethsig:accepted')
        ctx.event('refused')
    ctx.distinct(label, want, ttc.requestor_ethereum_public_key)
    ctx.sample((label, want))


def missing(ctx):
    """No (usable) signature or key at all."""
    rng = ctx.rng
    maker, ttc = build(ctx)
    if rng.random() < 0.6:
        ttc.ethsig = rng.choice([None, b'', '', 0, [], 'x' * 65, ['a'] * 65])
        what = ('ethsig', repr(ttc.ethsig))
    else:
        ttc.requestor_ethereum_public_key = rng.choice(
            [None, '', 'zz', 'ab', '00' * 64, 5, [],
             maker.cast.requestor_eth.hex[:-2],
             maker.cast.requestor_eth.hex + '00',
             maker.cast.requestor_eth.hex[:-1]])
        what = ('key', repr(ttc.requestor_ethereum_public_key)[:20])
        if rng.random() < 0.5:      # neither the one nor the other
            ttc.ethsig = rng.choice([None, None, b'', ref.ZERO_SIG])
            what += (repr(ttc.ethsig)[:20],)
    ctx.raises(exceptions.MessageError, lambda: load(maker.cast, ttc),
               'loaded with %r' % (what,), 'missing')
    ctx.event('refused')
    ctx.distinct(*what)


def generated(ctx):
    """What generate_ethsig makes is exactly what is asked for."""
    rng = ctx.rng
    maker, ttc = build(ctx)
    role = rng.choice(['requestor_eth', 'requestor_eth', 'other'])
    key = maker.cast.keys[role]
    ttc.ethsig = None
    if rng.random() < 0.3:
        digest = rng.getrandbits(160).to_bytes(20, 'big')
        ttc.generate_ethsig(key.priv, msg_hash=digest)
        want = digest
        ctx.check(ref.signed_by(ttc.ethsig, want, key.pub),
                  'generate_ethsig ignores the hash', 'generate:hash')
        good = role == 'requestor_eth'
        try:
            got = ttc.verify_ethsig(msg_hash=digest)
        except exceptions.InvalidSignature:
            got = False
        ctx.check(got is good, 'verify_ethsig by a hash', 'generate:hash')
        ctx.event('by hash')
    else:
        ttc.generate_ethsig(key.priv)
        ctx.check(ref.signed_by(ttc.ethsig, gen.message_hash(
            ttc.want_to_compute_task), key.pub),
            'generate_ethsig signs something else', 'generate:offer')
        if role == 'requestor_eth':
            back = load(maker.cast, ttc)
            ctx.eq(back.ethsig, ttc.ethsig, 'ethsig', 'generate:offer')
        else:
            ctx.raises(exceptions.InvalidSignature,
                       lambda: load(maker.cast, ttc),
                       'signed by somebody else', 'ethsig:accepted')
        ctx.event('by offer')
    ttc.requestor_ethereum_public_key = rng.choice([None, ''])
    before = ttc.ethsig
    ctx.raises(exceptions.FieldError, lambda: ttc.generate_ethsig(key.priv),
               'generate_ethsig without a key to verify it by',
               'generate:keyless')
    ctx.eq(ttc.ethsig, before, 'ethsig set all the same', 'generate:keyless')
    ctx.distinct(role, ctx.index % 50)


# --- ids -----------------------------------------------------------------

def make_id(rng, maker):
    """(id, label)"""
    cast = maker.cast
    kind = rng.randrange(9)
    own = cast.requestor.pub
    if kind <= 1:
        return gen.seeded_uuid(rng, own), 'own'
    if kind == 2:
        return gen.seeded_uuid(rng, rng.choice([
            cast.provider.pub, cast.other.pub,
            cast.requestor_eth.pub])), 'foreign'
    if kind == 3:
        bad = bytearray(own)
        bad[rng.randrange(6)] ^= 1 << rng.randrange(8)
        return gen.seeded_uuid(rng, bytes(bad)), 'near'
    if kind == 4:
        # beyond the seed nothing counts
        bad = bytearray(own)
        bad[rng.randrange(6, 64)] ^= 1 << rng.randrange(8)
        return gen.seeded_uuid(rng, bytes(bad)), 'own beyond'
    if kind == 5:
        return gen.seeded_uuid(rng, own).upper(), 'own upper'
    if kind == 6:
        return gen.seeded_uuid(rng, own).replace('-', ''), 'own bare'
    if kind == 7:
        # the seed elsewhere than in the node
        u = gen.seeded_uuid(rng, cast.other.pub).replace('-', '')
        return own.hex()[:12] + u[12:], 'elsewhere'
    if rng.random() < 0.5:
        # read as a number it would do
        what = rng.choice(['+', ' ', '\n', '\u0661', '0x', '\t', '\uff12'])
        return what + gen.seeded_uuid(rng, own).replace('-', '')[
            len(what):], 'no uuid'
    return rng.choice(['', 'task', '0' * 31, 'g' * 32, own.hex(),
                       '0' * 20 + own.hex()[:13], own.hex()[:12]]), 'no uuid'


def ids(ctx):
    rng = ctx.rng
    maker, ttc = build(ctx)
    cast = maker.cast
    ctd = ttc.compute_task_def
    labels = []
    for name in ('task_id', 'subtask_id'):
        ctd[name], label = make_id(rng, maker) if rng.random() < 0.6 else (
            gen.seeded_uuid(rng, cast.requestor.pub), 'own')
        labels.append(label)
    if rng.random() < 0.15:
        # One id for both: only its origin is judged.
        ctd['subtask_id'] = ctd['task_id']
        labels[1] = labels[0]
    if rng.random() < 0.25:
        ttc.requestor_id = rng.choice([
            cast.other.hex, cast.provider.hex, cast.requestor.hex[:12], '',
            '0' * 128, '0' * 12 + cast.requestor.hex[12:],
            'f' * 12 + cast.requestor.hex[12:], '0' * 11 + '1' * 117])
        if rng.random() < 0.3:
            for n, name in enumerate(('task_id', 'subtask_id')):
                ctd[name] = gen.seeded_uuid(
                    rng, bytes.fromhex(ttc.requestor_id))
                labels[n] = 'own of another'
        labels.append(ttc.requestor_id[:16])
    good = all(
        label != 'no uuid'
        and node_of(ctd[name]) == ttc.requestor_id[:12].lower().zfill(12)
        for label, name in zip(labels, ('task_id', 'subtask_id')))
    if good:
        back = load(cast, ttc)
        ctx.eq((back.task_id, back.subtask_id),
               (ctd['task_id'], ctd['subtask_id']), 'ids', 'ids:changed')
        ttc.validate_taskid()
        ctx.event('accepted')
    else:
        e = ctx.raises(exceptions.FieldError, lambda: load(cast, ttc),
                       'loaded with %s ids' % (labels,), 'ids:accepted')
        wrong = [name for label, name in zip(labels, ('task_id', 'subtask_id'))
                 if label == 'no uuid' or node_of(ctd[name])
                 != ttc.requestor_id[:12].lower().zfill(12)]
        ctx.check(e.field in wrong, 'error blames %s' % e.field, 'ids:field',
                  wrong=wrong)
        e = ctx.raises(exceptions.FieldError, ttc.validate_taskid,
                       'validate_taskid with %s ids' % (labels,),
                       'ids:accepted')
        ctx.check(e.field in wrong, 'error blames %s' % e.field, 'ids:field',
                  wrong=wrong)
        ctx.event('refused')
    ctx.distinct(tuple(labels), good)
    ctx.sample((labels, good))


def numbers(ctx):
    rng = ctx.rng
    maker, ttc = build(ctx)
    slot = rng.choice(['price', 'size'])
    good = rng.random() < 0.4
    value = gen.integer(rng) if good else rng.choice(
        [None, '', '1', 1.0, 0.5, True, False, [], [1], {}, b'1'])
    setattr(ttc, slot, value)
    if good:
        ctx.eq(getattr(load(maker.cast, ttc), slot), value, slot,
               'numbers:changed')
        ctx.event('accepted')
    else:
        e = ctx.raises(exceptions.FieldError, lambda: load(maker.cast, ttc),
                       '%s %r loaded' % (slot, value), 'numbers:accepted')
        ctx.eq(e.field, slot, 'blames', 'numbers:field')
        ctx.event('refused')
    ctx.distinct(slot, repr(value)[:40])


SCENARIOS = [
    Scenario('signature', signature, 420, 16000, need={
        'accepted': 100, 'refused': 150}),
    Scenario('missing', missing, 60, 1000, need={'refused': 60}),
    Scenario('generated', generated, 120, 4000, need={
        'by hash': 15, 'by offer': 50}),
    Scenario('ids', ids, 500, 20000, need={'accepted': 100, 'refused': 100}),
    Scenario('numbers', numbers, 120, 3000, need={
        'accepted': 25, 'refused': 40}),
    Scenario('crowd', crowd(signature, ids), 32, 1200, need={
        'crowds': 16, 'switches': 20}, max_s=120),
]
assert tasks
