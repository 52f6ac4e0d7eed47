"""verify_owners: the chain belongs to the parties one thinks it does."""
from golem_messages import exceptions

from gm import chain, gen, spec
from gm.checks import c14
from gm.core import Scenario
from gm.crowd import crowd

PROPERTY = 'C15'
RULE = ('A case builds a signed chain, damages one thing in it or nothing,'
        ' and calls verify_owners with a right, wrong, swapped, empty or'
        ' absent key for each role, on the live and the loaded message; the'
        ' outcome is compared to a model: a given key that is not the task\'s'
        ' is an OwnershipMismatch, then the chain decides between True and'
        ' InvalidSignature. Distinct: (type, kinds of keys, attack,'
        ' outcome).')
CHAIN = c14.CHAIN


def key_choice(rng, cast, right, swapped):
    kind = rng.choice(['right', 'right', 'right', 'none', 'none', 'empty',
                       'wrong', 'swapped', 'one bit', 'cut', 'reversed'])
    good = right.pub
    if kind == 'right':
        key = good
    elif kind == 'none':
        key = None
    elif kind == 'empty':
        key = b''
    elif kind == 'wrong':
        key = rng.choice([cast.other.pub, cast.concent.pub,
                          cast.requestor_eth.pub])
    elif kind == 'swapped':
        key = swapped.pub
    elif kind == 'one bit':
        key = bytearray(good)
        key[rng.randrange(64)] ^= 1 << rng.randrange(8)
        key = bytes(key)
    elif kind == 'cut':
        key = rng.choice([good[:63], good[1:], good + b'\0', good[:32]])
    else:
        key = good[32:] + good[:32]
    return kind, key


def model(msg, provider, requestor, concent):
    ttc = chain.accessor(msg, 'task_to_compute')
    if provider and provider != bytes.fromhex(
            ttc.want_to_compute_task.provider_public_key):
        return 'OwnershipMismatch'
    if requestor and requestor != bytes.fromhex(ttc.requestor_public_key):
        return 'OwnershipMismatch'
    return True if chain.chain_ok(msg, concent) else 'InvalidSignature'


def outcome(call):
    try:
        return call()
    except (exceptions.OwnershipMismatch, exceptions.InvalidSignature) as e:
        return type(e).__name__


def owners(ctx):
    rng = ctx.rng
    type_id = CHAIN[ctx.index % len(CHAIN)]
    maker, msg = c14.build(ctx, type_id)
    cast = maker.cast
    label = 'nothing'
    if rng.random() < 0.5:
        # asked before the damage is done
        ctx.check(msg.verify_owners(
            provider_public_key=cast.provider.pub,
            requestor_public_key=cast.requestor.pub,
            concent_public_key=cast.concent.pub) is True,
            'genuine chain refused', 'owners:genuine')
        ctx.event('genuine first')
    if rng.random() < 0.5:
        attack = rng.choice([c14.at_one_of_two, c14.at_signer, c14.at_bytes, c14.at_content,
                             c14.at_header, c14.at_roles, c14.at_unowned])
        label = attack(maker, c14.chain_members(msg), rng)
    bodies = [('live', msg)]
    if rng.random() < 0.4 and len(msg.sig or b'x' * 65) == 65:
        try:
            bodies.append(('loaded', c14.reload(maker, msg)))
        except exceptions.MessageError:
            ctx.event('not loadable')
    ttc = chain.accessor(msg, 'task_to_compute')
    named = {}
    for role, hexkey in (
            ('provider', ttc.want_to_compute_task.provider_public_key),
            ('requestor', ttc.requestor_public_key)):
        named[role] = next(k for k in cast.keys.values() 
                           if k.hex == hexkey.lower())
    for _ in range(4):
        pk, provider = key_choice(rng, cast, named['provider'],
                                  named['requestor'])
        rk, requestor = key_choice(rng, cast, named['requestor'],
                                   named['provider'])
        concent = cast.concent.pub if rng.random() < 0.9 else cast.other.pub
        for mode, m in bodies:
            want = model(m, provider, requestor, concent)
            kw = {'concent_public_key': concent}
            if provider is not None or rng.random() < 0.5:
                kw['provider_public_key'] = provider
            if requestor is not None or rng.random() < 0.5:
                kw['requestor_public_key'] = requestor
            got = outcome(lambda: m.verify_owners(**kw))
            ctx.check(
                got == want and type(got) is type(want),
                '%s.verify_owners(provider %s, requestor %s; %s, %s): %r, '
                'should be %r' % (type(m).__name__, pk, rk, label, mode, got,
                                  want),
                'owners:%s instead of %s' % (got, want))
            ctx.event(str(want))
            ctx.event(mode)
        ctx.distinct(type_id, pk, rk, label, want)
    ctx.sample((spec.TYPES[type_id].name, pk, rk, label, want))


def keyless(ctx):
    """Without Concent's key nothing is Concent's, whoever else is named."""
    rng = ctx.rng
    type_id = CHAIN[ctx.index % len(CHAIN)]
    maker, msg = c14.build(ctx, type_id)
    cast = maker.cast
    label = 'nothing'
    if rng.random() < 0.75:
        attack = rng.choice([c14.at_owned_by_concent,
                             c14.at_owned_by_concent, c14.at_signer,
                             c14.at_bytes, c14.at_content])
        label = attack(maker, c14.chain_members(msg), rng)
    for _ in range(3):
        kw = {}
        if rng.random() < 0.6:
            kw['provider_public_key'] = cast.provider.pub
        if rng.random() < 0.6:
            kw['requestor_public_key'] = cast.requestor.pub
        if rng.random() < 0.5:
            kw['concent_public_key'] = rng.choice([None, b''])
        c14.without_concent(ctx, msg, lambda: msg.verify_owners(**kw), label)
    ctx.distinct(type_id, label, len(kw))


def pure(ctx):
    """Nothing is written by asking."""
    rng = ctx.rng
    type_id = CHAIN[ctx.index % len(CHAIN)]
    maker, msg = c14.build(ctx, type_id)
    before = gen.describe(msg), msg.encrypted
    for _ in range(2):
        outcome(lambda: msg.verify_owners(
            rng.choice([None, maker.cast.provider.pub, maker.cast.other.pub]),
            rng.choice([None, maker.cast.requestor.pub]),
            maker.cast.concent.pub))
        ctx.eq((gen.describe(msg), msg.encrypted), before,
               'verify_owners changed the message', 'owners:changed')
    ctx.event('unchanged')
    ctx.distinct(type_id)


SCENARIOS = [
    Scenario('owners', owners, len(CHAIN) * 24, len(CHAIN) * 1000, need={
        'True': 200, 'OwnershipMismatch': 500, 'InvalidSignature': 200,
        'loaded': 400}),
    Scenario('keyless', keyless, len(CHAIN) * 10, len(CHAIN) * 300, need={
        'keyless refused': 150, 'keyless accepted': 30}),
    Scenario('pure', pure, len(CHAIN) * 2, len(CHAIN) * 20,
             need={'unchanged': 40}),
    Scenario('crowd', crowd(owners), 32, 1200, need={
        'crowds': 16, 'switches': 20}, max_s=120),
]
