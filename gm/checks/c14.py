"""Ownership of the chain: who signed what."""
import copy
import os

from golem_messages import exceptions, shortcuts

from gm import chain, gen, ref, spec
from gm.core import Scenario
from gm.crowd import crowd

PROPERTY = 'C14'
RULE = ('A case builds a fully signed task message chain (live, or dumped and'
        ' loaded), changes one thing in one message of the tree (signer,'
        ' signature bytes, content, time, keys, task header) or nothing, and'
        ' compares the verdict of validate_ownership(_chain) to a model built'
        ' from the protocol table. Distinct: (type, path, attack, verdict,'
        ' live or loaded).')
CHAIN = [t for t in sorted(spec.TYPES) if spec.has_chain(t)]
ROLES = gen.Cast.ROLES


def build(ctx, type_id, cast=None):
    rng = ctx.rng
    cast = cast or gen.Cast(rng)
    if rng.random() < 0.1:
        # one party in two roles
        a, b = rng.sample(['provider', 'requestor', 'concent'], 2)
        cast.keys[a] = cast.keys[b]
        setattr(cast, a, cast.keys[b])
    maker = gen.Maker(rng, cast=cast, sign='all', anchor=True,
                      ts=rng.randint(1500000000, 1900000000))
    msg = maker.make(type_id, nested=True)
    return maker, msg


def reload(maker, msg):
    """What the receiver holds."""
    wire = shortcuts.dump(msg, None, None)
    return shortcuts.load(wire, maker.cast.other.priv, None,
                          check_time=False)


def resign(msg, key):
    msg.sig = None
    msg.sign_message(key.priv)


# --- attacks: (maker, tree, rng) -> label ------------------------------------

def at_signer(maker, path_msgs, rng):
    msg = rng.choice(path_msgs)
    role = rng.choice(ROLES)
    resign(msg, maker.cast.keys[role])
    return 'signed by ' + role


def at_bytes(maker, path_msgs, rng):
    msg = rng.choice(path_msgs)
    good = msg.sig
    kind = rng.randrange(8)
    if kind == 0:
        msg.sig = None
    elif kind == 1:
        msg.sig = ref.ZERO_SIG
    elif kind == 2:
        msg.sig = good[:rng.randrange(65)]
    elif kind == 3:
        bad = bytearray(good)
        bad[rng.randrange(65)] ^= 1 << rng.randrange(8)
        msg.sig = bytes(bad)
    elif kind == 4:
        msg.sig = os.urandom(64) + bytes([rng.randrange(4)])
    elif kind == 5:
        msg.sig = rng.choice(path_msgs).sig
    elif kind == 6:
        msg.sig = good + b'\0'
    else:
        msg.sig = ref.malleate(good)
    return 'bytes %d' % kind


def at_content(maker, path_msgs, rng):
    msg = rng.choice(path_msgs)
    t = spec.TYPES[gen.type_id_of(msg)]
    free = [s for s in t.slots if s not in t.msgs and s not in t.enums
            and s not in ('reason', 'compute_task_def', 'stats', 'files',
                          'requestor_public_key', 'task_header')]
    if not free:
        return at_time(maker, path_msgs, rng)
    slot = rng.choice(free)
    value = getattr(msg, slot)
    setattr(msg, slot, value + 1 if type(value) is int else
            (value or '') + 'x' if isinstance(value, str) else 'changed')
    return 'content'


def at_time(maker, path_msgs, rng):
    msg = rng.choice(path_msgs)
    h = msg.header
    msg.header = type(h)(h.type_, h.timestamp + rng.choice([-1, 1]),
                         h.encrypted)
    return 'time'


def at_flag(maker, path_msgs, rng):
    """How a message travelled is nobody's signature's business.  (The flag
    of a nested message is part of its holder's content.)"""
    msg = path_msgs[0]
    msg.encrypted = not msg.encrypted
    return 'flag'


def ttc_of(msg):
    return chain.accessor(msg, 'task_to_compute')


def at_header(maker, path_msgs, rng):
    ttc = ttc_of(path_msgs[0])
    th = ttc.want_to_compute_task.task_header
    kind = rng.randrange(5)
    if kind == 0:
        th.signature = None
    elif kind == 4:
        # by whoever the header says owns the task
        owner = maker.cast.keys[rng.choice(ROLES)]
        th.task_owner.key = owner.hex
        th.sign(owner.priv)
    elif kind == 1:
        th.sign(maker.cast.keys[rng.choice(ROLES)].priv)
    elif kind == 2:
        th.deadline = (th.deadline or 0) + 1
    else:
        th.signature = ttc.sig
    # the rest of the chain follows suit, so that only the header is wrong
    resign(ttc.want_to_compute_task, maker.cast.provider)
    for m in reversed(path_msgs):
        resign_properly(maker, m, rng)
    return 'header %d' % kind


def at_roles(maker, path_msgs, rng):
    """A task that names other keys, everything signed again as before or by
    the new owners."""
    ttc = ttc_of(path_msgs[0])
    wtct = ttc.want_to_compute_task
    kind = rng.randrange(3)
    cast = maker.cast
    if kind == 0:
        ttc.requestor_public_key = cast.other.hex
    elif kind == 1:
        wtct.provider_public_key = cast.other.hex
    else:
        ttc.requestor_public_key, wtct.provider_public_key = \
            wtct.provider_public_key, ttc.requestor_public_key
    if rng.random() < 0.5:
        wtct.task_header.sign(rng.choice([cast.other, cast.provider,
                                          cast.requestor]).priv)
    for m in reversed(path_msgs):
        resign_properly(maker, m, rng)
    return 'roles %d' % kind


def resign_properly(maker, m, rng):
    role = maker.signer.get(id(m))
    if role is None:
        role = rng.choice(spec.TYPES[gen.type_id_of(m)].owners or ['other'])
    resign(m, maker.cast.keys[role])


def at_unowned(maker, path_msgs, rng):
    """Messages that belong to no chain are nobody's to check here."""
    label = 'unowned'
    for m in list(path_msgs):
        for _, inner in gen.walk(m):
            if not chain.is_chain(inner) and inner is not path_msgs[0]:
                inner.sig = rng.choice([ref.ZERO_SIG, None])
    for m in reversed(path_msgs):
        resign_properly(maker, m, rng)
    return label


def at_one_of_two(maker, path_msgs, rng):
    """Where a message occurs in two places, an altered copy of it (with the
    genuine signature) takes one of them."""
    places = {}
    for holder in path_msgs:
        for slot in spec.TYPES[gen.type_id_of(holder)].msgs:
            inner = getattr(holder, slot)
            if any(inner is m for m in path_msgs):
                places.setdefault(id(inner), (inner, []))[1].append(
                    (holder, slot))
    twice = [(m, where) for m, where in places.values() if len(where) > 1]
    if not twice:
        return at_content(maker, path_msgs, rng)
    inner, where = rng.choice(twice)
    holder, slot = rng.choice(where)
    other = copy.copy(inner)
    for _ in range(20):
        free = [s for s in spec.TYPES[gen.type_id_of(inner)].slots
                if type(getattr(inner, s)) in (int, str, bool)
                and not s.endswith('_public_key')]
        s = rng.choice(free or ['header'])
        if s == 'header':
            h = other.header
            other.header = type(h)(h.type_, h.timestamp + 1, h.encrypted)
            break
        value = getattr(inner, s)
        setattr(other, s, not value if type(value) is bool else value + 1
                if type(value) is int else value + 'x')
        break
    setattr(holder, slot, other)
    if rng.random() < 0.3:
        resign_properly(maker, other, rng)
    for m in reversed(path_msgs):
        if m is not inner:
            resign_properly(maker, m, rng)
    return 'one of two'


def nothing(maker, path_msgs, rng):
    return 'nothing'


ATTACKS = [nothing, at_signer, at_signer, at_signer, at_bytes, at_bytes,
           at_content, at_time, at_flag, at_header, at_header, at_roles,
           at_unowned, at_one_of_two]


def chain_members(msg):
    """Chain messages, outermost first (each object once)."""
    out = []
    for _, m in gen.walk(msg):
        if chain.is_chain(m) and not any(m is o for o in out):
            out.append(m)
    return out


def verdict(call):
    try:
        return call()
    except exceptions.InvalidSignature:
        return False


def compare(ctx, msg, concent, label, type_id, mode):
    want = chain.chain_ok(msg, concent.pub)
    got = verdict(lambda: msg.validate_ownership_chain(
        concent_public_key=concent.pub))
    ctx.check(got is want, 'validate_ownership_chain of %s (%s, %s): %r, '
              'should be %r' % (spec.TYPES[type_id].name, label, mode, got,
                                want),
              'chain:accepted' if got else 'chain:refused')
    want1 = chain.owned(msg, concent.pub)
    got1 = verdict(lambda: msg.validate_ownership(concent.pub))
    ctx.check(got1 is want1, 'validate_ownership of %s (%s, %s): %r, '
              'should be %r' % (spec.TYPES[type_id].name, label, mode, got1,
                                want1),
              'own:accepted' if got1 else 'own:refused')
    ctx.event('valid' if want else 'invalid')
    if want1 and not want:
        ctx.event('invalid inside')
    return want


def attacked(ctx):
    rng = ctx.rng
    type_id = CHAIN[ctx.index % len(CHAIN)]
    maker, msg = build(ctx, type_id)
    members = chain_members(msg)
    attack = ATTACKS[(ctx.index // len(CHAIN)) % len(ATTACKS)]
    if rng.random() < 0.3:
        members_pick = members[:1]
    else:
        members_pick = members
    if rng.random() < 0.5:
        # whatever is remembered of the genuine one proves nothing later
        compare(ctx, msg, maker.cast.concent, 'genuine', type_id, 'live')
        ctx.event('genuine first')
    label = attack(maker, members_pick if attack in (
        at_signer, at_bytes, at_content, at_time) else members, rng)
    if rng.random() < 0.25 and attack is not nothing:
        # everything above the damage signed again by its owner
        for m in reversed(members[:-1]):
            if m is not members_pick[-1]:
                resign_properly(maker, m, rng)
    concent = maker.cast.concent
    want = compare(ctx, msg, concent, label, type_id, 'live')
    mode = 'live'
    # (an outermost signature of another length has no place in a frame)
    if rng.random() < 0.5 and len(msg.sig or ref.ZERO_SIG) == 65:
        try:
            back = reload(maker, msg)
        except exceptions.MessageError:
            ctx.event('not loadable')
        else:
            compare(ctx, back, concent, label, type_id, 'loaded')
            mode = 'both'
            ctx.event('loaded')
    # the concent's key is a parameter: with another one the concent's
    # signatures are worth nothing
    if rng.random() < 0.3:
        compare(ctx, msg, maker.cast.other, label + ', other concent',
                type_id, 'live')
        ctx.event('other concent')
    ctx.distinct(type_id, label, want, mode)
    ctx.sample((spec.TYPES[type_id].name, label, want))


def every_member(ctx):
    """For one chain: each member in turn signed by each party; the verdict
    has to change exactly as the table says."""
    rng = ctx.rng
    type_id = CHAIN[ctx.index % len(CHAIN)]
    cast = gen.Cast(rng)
    maker = gen.Maker(rng, cast=cast, sign='all', anchor=True,
                      ts=rng.randint(1500000000, 1900000000))
    msg = maker.make(type_id, nested=True)
    ctx.check(msg.validate_ownership_chain(
        concent_public_key=cast.concent.pub) is True, 'genuine chain refused',
        'chain:refused')
    members = chain_members(msg)
    for n, m in enumerate(members):
        owners = spec.TYPES[gen.type_id_of(m)].owners
        for role in ('provider', 'requestor', 'concent', 'other'):
            keep = [(x, x.sig) for x in members]
            resign(m, cast.keys[role])
            # holders sign what they now hold
            for x in reversed(members):
                if x is not m:
                    resign_properly(maker, x, rng)
            ok = role in owners
            got = verdict(lambda: msg.validate_ownership_chain(
                concent_public_key=cast.concent.pub))
            ctx.check(got is ok, 'member %d (%s) of %s signed by the %s: %r' %
                      (n, type(m).__name__, spec.TYPES[type_id].name, role,
                       got), 'member:accepted' if got else 'member:refused')
            ctx.event('member accepted' if ok else 'member refused')
            ctx.distinct(type_id, n, role)
            for x, sig in keep:
                x.sig = sig


def one_of_two(ctx):
    rng = ctx.rng
    type_id = CHAIN[ctx.index % len(CHAIN)]
    maker, msg = build(ctx, type_id)
    if rng.random() < 0.3:
        compare(ctx, msg, maker.cast.concent, 'genuine', type_id, 'live')
    label = at_one_of_two(maker, chain_members(msg), rng)
    if label != 'one of two':
        return
    compare(ctx, msg, maker.cast.concent, label, type_id, 'live')
    try:
        back = reload(maker, msg)
    except exceptions.MessageError:
        ctx.event('not loadable')
    else:
        compare(ctx, back, maker.cast.concent, label, type_id, 'loaded')
    ctx.event('replaced')
    ctx.distinct(type_id, label)


def concent_somewhere(msg):
    return any('concent' in spec.TYPES[gen.type_id_of(m)].owners
               for m in chain_members(msg))


def without_concent(ctx, msg, ask, label):
    """What is asked without a Concent key: Concent's signature is worth
    nothing, nobody else's takes its place, and a chain in which Concent has
    no say needs no key."""
    want = chain.chain_ok(msg, b'')
    try:
        got = ask()
    except Exception as e:      # how it refuses is not the point here
        got = e
    if not want:
        ctx.check(got is not True,
                  '%s (%s) accepted without a Concent key' % (
                      type(msg).__name__, label), 'keyless:accepted')
        ctx.event('keyless refused')
    elif not concent_somewhere(msg):
        ctx.check(got is True, '%s (%s) without a Concent key: %r' % (
            type(msg).__name__, label, got), 'keyless:refused')
        ctx.event('keyless accepted')
    return want


def at_owned_by_concent(maker, path_msgs, rng):
    """Concent's place taken by somebody else."""
    its = [m for m in path_msgs
           if 'concent' in spec.TYPES[gen.type_id_of(m)].owners]
    if not its:
        return at_signer(maker, path_msgs, rng)
    m = rng.choice(its)
    resign(m, maker.cast.keys[rng.choice(ROLES)])
    for x in reversed(path_msgs):
        if x is not m:
            resign_properly(maker, x, rng)
    return 'in the place of concent'


def keyless(ctx):
    rng = ctx.rng
    type_id = CHAIN[ctx.index % len(CHAIN)]
    maker, msg = build(ctx, type_id)
    label = 'nothing'
    if rng.random() < 0.75:
        attack = rng.choice([at_owned_by_concent, at_owned_by_concent,
                             at_signer, at_bytes, at_content, at_header,
                             at_roles])
        label = attack(maker, chain_members(msg), rng)
    for _ in range(2):
        given = rng.choice([{}, {'concent_public_key': None},
                            {'concent_public_key': b''}])
        want = without_concent(
            ctx, msg, lambda: msg.validate_ownership_chain(**given), label)
        own = chain.owned(msg, b'')
        try:
            got = msg.validate_ownership(*given.values())
        except Exception as e:
            got = e
        if not own:
            ctx.check(got is not True, '%s (%s) owned by nobody' % (
                type(msg).__name__, label), 'keyless:accepted')
        elif 'concent' not in spec.TYPES[type_id].owners:
            ctx.check(got is True, '%s (%s): %r' % (
                type(msg).__name__, label, got), 'keyless:refused')
    ctx.distinct(type_id, label, want)


SCENARIOS = [
    Scenario('keyless', keyless, len(CHAIN) * 10, len(CHAIN) * 300, need={
        'keyless refused': 150, 'keyless accepted': 30}),
    Scenario('attacked', attacked, len(CHAIN) * len(ATTACKS) * 4,
             len(CHAIN) * len(ATTACKS) * 120, need={
                 'valid': 150, 'invalid': 400, 'invalid inside': 100,
                 'loaded': 150, 'other concent': 100,
                 'genuine first': 200}),
    Scenario('one_of_two', one_of_two, len(CHAIN) * 6, len(CHAIN) * 200,
             need={'replaced': 20}),
    Scenario('every_member', every_member, len(CHAIN) * 4,
             len(CHAIN) * 80, need={
                 'member accepted': 300, 'member refused': 700}),
    Scenario('crowd', crowd(attacked), 32, 1200, need={
        'crowds': 16, 'switches': 20}, max_s=120),
]
