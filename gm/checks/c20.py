"""The requestor's signature of a task header."""
import hashlib

from golem_messages import exceptions, shortcuts
from golem_messages.datastructures import p2p, tasks as dt_tasks

from gm import gen, ref, spec
from gm.core import Scenario
from gm.crowd import crowd

PROPERTY = 'C20'
RULE = ('A case signs a task header, checks hash and signature against an'
        ' own CBOR / SHA-1 / ecrecover, then changes one field (or spells'
        ' nothing anew, or spoils the signature) and compares verify() with'
        ' the recovered signer, also after transport inside Tasks and'
        ' WantToComputeTask. Distinct: (field or damage, value, verdict).')


def own_hash(th):
    fields = gen.plain_value(th)
    del fields['signature']
    return hashlib.sha1(ref.cbor_enc(fields)).digest()


def model(th, pub):
    return isinstance(th.signature, bytes) and ref.signed_by(
        th.signature, own_hash(th), pub)


def verify(th, pub):
    try:
        return th.verify(pub)
    except exceptions.InvalidSignature:
        return False


def compare(ctx, th, pub, label):
    want = model(th, pub)
    got = verify(th, pub)
    ctx.check(got is want, 'verify after %s: %r, should be %r' % (
        label, got, want), 'verify:accepted' if got else 'verify:refused')
    ctx.event('valid' if want else 'invalid')
    return want


def build(ctx):
    rng = ctx.rng
    cast = gen.Cast(rng)
    fields = gen.task_header_fields(rng, owner=cast.requestor)
    return cast, fields, dt_tasks.TaskHeader(**fields)


def signing(ctx):
    rng = ctx.rng
    cast, fields, th = build(ctx)
    ctx.check(th.signature is None, 'signed from the start', 'sign:born')
    ctx.raises(exceptions.InvalidSignature,
               lambda: th.verify(cast.requestor.pub), 'unsigned',
               'verify:unsigned')
    plain = gen.plain_value(th)
    ctx.eq(th.get_hash(), own_hash(th), 'hash', 'hash')
    th.sign(cast.requestor.priv)
    ctx.check(ref.signed_by(th.signature, own_hash(th), cast.requestor.pub),
              'sign() signs something else', 'sign:covers')
    after = gen.plain_value(th)
    del after['signature'], plain['signature']
    ctx.eq(after, plain, 'sign() changed the header', 'sign:changes')
    ctx.check(th.verify(cast.requestor.pub) is True, 'genuine refused',
              'verify:refused')
    for role in ('provider', 'concent', 'other'):
        compare(ctx, th, cast.keys[role].pub, 'key of ' + role)
    # signing again replaces
    th.sign(cast.provider.priv)
    compare(ctx, th, cast.requestor.pub, 'resigned')
    ctx.check(compare(ctx, th, cast.provider.pub, 'resigned'),
              'signed again: not by the key', 'sign:again')
    # the order of the arguments does not matter
    names = list(fields)
    rng.shuffle(names)
    other = dt_tasks.TaskHeader(**{k: fields[k] for k in names})
    other.signature = th.signature
    compare(ctx, other, cast.provider.pub, 'order')
    ctx.distinct(ctx.index)


def new_value(rng, name, th, cast, in_place=False):
    old = getattr(th, name)
    if name == 'mask':
        if old and rng.random() < .3:
            # the same number of other bytes: a mask of another length
            raw = old.to_bytes()
            return type(old)(byte_repr=rng.choice(
                [b'\0' + raw, raw.lstrip(b'\0')] if raw[:1] == b'\0'
                else [b'\0' + raw]))
        return type(old)(byte_repr=bytes([old.to_bytes()[0] ^ 128]) +
                         old.to_bytes()[1:]) if old else \
            dt_tasks.TaskHeader.deserialize_mask(b'\1' * 32)
    if name == 'task_owner':
        f = gen.plain_value(old)
        key = rng.choice(spec.NODE_FIELDS)
        other = {
            'node_name': 'x%s' % old.node_name, 'key': cast.other.hex,
            'prv_addr': '9.8.7.6', 'pub_addr': '9.8.7.5',
            'prv_addresses': old.prv_addresses + ['1.1.1.1'],
            'port_statuses': {'x': 'y'}, 'nat_type': ['other'],
        }
        f[key] = other[key] if key in other else (f[key] or 6) % 65000 + 7
        if in_place:
            setattr(old, key, f[key])
            return old
        return p2p.Node(**f)
    if name == 'market_type':
        kinds = list(dt_tasks.TaskHeader.MARKET_TYPE)
        return kinds[0] if old is not kinds[0] else kinds[1]
    if name in ('task_id', 'environment'):
        return (old or '')[:100] + 'x'
    if name == 'min_version':
        return old + '9' if '-' in old or '+' in old else old + '-x'
    if name == 'environment_prerequisites':
        # whatever name a prerequisite has
        key = rng.choice(['new', 'new', ''] + spec.TASK_HEADER_FIELDS + [
            'sig', 'signature', 'hash', 'mask', 'key', 'None', 'docker', '_x'])
        old = old or {}
        return dict(old, **{key: rng.choice([
            v for v in (1, None, b'\1' * 65, '', [], {})
            if key not in old or v != old[key]])})
    if name == 'concent_enabled':
        return rng.choice([v for v in (None, True, False) if v is not old])
    if old is None:
        return rng.choice([0, 1])
    return rng.choice([old + 1, old - 1, old + 256, None])


COVERED = [f for f in spec.TASK_HEADER_FIELDS if f != 'signature']


def coverage(ctx):
    """Every field counts."""
    rng = ctx.rng
    cast, _, th = build(ctx)
    th.sign(cast.requestor.priv)
    before = own_hash(th)
    if rng.random() < 0.5:      # asked before
        compare(ctx, th, cast.requestor.pub, 'signing')
        th.get_hash()
    name = COVERED[ctx.index % len(COVERED)]
    old = getattr(th, name)
    if name == 'task_owner' and rng.random() < 0.6:
        # the very same object, with something else in it
        spare = gen.plain_value(old)
        value = new_value(rng, name, th, cast, in_place=True)
        old = p2p.Node(**spare)
        ctx.event('in place')
    else:
        value = new_value(rng, name, th, cast)
        setattr(th, name, value)
    ctx.check(own_hash(th) != before, 'the case changes nothing: %s' % name,
              'case')
    ctx.raises(exceptions.InvalidSignature,
               lambda: th.verify(cast.requestor.pub),
               '%s changed after signing' % name, 'covers:' + name)
    ctx.event('refused')
    setattr(th, name, old)
    compare(ctx, th, cast.requestor.pub, 'restored')
    ctx.distinct(name, repr(value)[:60])
    ctx.sample((name, repr(old)[:80], repr(value)[:80]))


def damage(ctx):
    rng = ctx.rng
    cast, _, th = build(ctx)
    th.sign(cast.requestor.priv)
    good = th.signature
    if rng.random() < 0.5:      # asked before
        compare(ctx, th, cast.requestor.pub, 'signing')
    kind = rng.randrange(7)
    if kind == 0:
        bad = bytearray(good)
        bad[rng.randrange(65)] ^= 1 << rng.randrange(8)
        th.signature = bytes(bad)
    elif kind == 1:
        th.signature = good[:rng.randrange(65)]
    elif kind == 2:
        th.signature = good + b'\0'
    elif kind == 3:
        th.signature = ref.ZERO_SIG
    elif kind == 4:
        th.signature = ref.malleate(good)
    elif kind == 5:
        th.signature = ref.sign(cast.requestor.priv, rng.choice(
            [b'\0' * 20, hashlib.sha1(b'').digest()]))
    else:
        th.signature = rng.getrandbits(520).to_bytes(65, 'big')
    want = compare(ctx, th, cast.requestor.pub, 'damage %d' % kind)
    ctx.distinct(kind, want)


def history(ctx):
    """Changes, signatures and questions in any order, of several headers
    that look alike."""
    rng = ctx.rng
    cast, fields, th = build(ctx)
    heads = [th, dt_tasks.TaskHeader(**fields)]
    for _ in range(10):
        th = rng.choice(heads)
        what = rng.choice(['sign', 'change', 'lend', 'ask', 'ask', 'move'])
        if what == 'sign':
            who = rng.choice([cast.requestor, cast.other])
            th.sign(who.priv)
            ctx.check(model(th, who.pub), 'sign() left the header unsigned',
                      'sign:again')
            ctx.event('signed')
        elif what == 'change':
            name = rng.choice(COVERED)
            setattr(th, name, new_value(rng, name, th, cast))
        elif what == 'lend':
            th.signature = rng.choice(heads).signature
        elif what == 'move':        # in place
            inner = th.task_owner
            if rng.random() < 0.4:
                new_value(rng, 'task_owner', th, cast, in_place=True)
            elif rng.random() < 0.5:
                inner.prv_addresses.append('10.1.1.%d' % rng.randrange(200))
            elif th.mask is not None:
                rng.choice([th.mask.increase, th.mask.decrease])(3)
        for h in heads:
            ctx.eq(h.get_hash(), own_hash(h), 'hash after ' + what, 'hash')
            if h.signature is not None:
                compare(ctx, h, cast.requestor.pub, what)
                compare(ctx, h, cast.other.pub, what)
    ctx.distinct(ctx.index)


def transport(ctx):
    """The signature survives; so does any forgery's failure."""
    rng = ctx.rng
    cast, _, th = build(ctx)
    th.sign(rng.choice([cast.requestor, cast.requestor, cast.other]).priv)
    if rng.random() < 0.3:
        name = rng.choice(COVERED)
        if name not in ('deadline', 'subtask_timeout', 'subtasks_count',
                        'timestamp'):
            setattr(th, name, new_value(rng, name, th, cast))
    want = model(th, cast.requestor.pub)
    maker = gen.Maker(rng, cast=cast, sign='none')
    if rng.random() < 0.5:
        msg = maker.make(1006, tasks=[th])
    else:
        msg = maker.make(2001, task_header=th)
    wire = shortcuts.dump(msg, cast.provider.priv, cast.concent.pub)
    back = shortcuts.load(wire, cast.concent.priv, cast.provider.pub,
                          check_time=False)
    got = back.tasks[0] if hasattr(back, 'tasks') else back.task_header
    ctx.eq(gen.canon(got), gen.canon(th), 'header changed', 'wire:content')
    ctx.eq(got.get_hash(), th.get_hash(), 'hash changed', 'wire:hash')
    ctx.check(verify(got, cast.requestor.pub) is want,
              'verdict changed by the wire', 'wire:verdict')
    ctx.event('valid' if want else 'invalid')
    again = dt_tasks.TaskHeader(**got.to_dict())
    ctx.eq(again.get_hash(), th.get_hash(), 'hash changed by to_dict',
           'wire:hash')
    ctx.distinct(want, type(msg).__name__, ctx.index % 40)


SCENARIOS = [
    Scenario('signing', signing, 120, 5000, need={
        'valid': 100, 'invalid': 200}),
    Scenario('coverage', coverage, 300, 12000, need={
        'refused': 250, 'valid': 250, 'in place': 5}),
    Scenario('damage', damage, 160, 6000, need={'invalid': 80, 'valid': 5}),
    Scenario('transport', transport, 160, 6000, need={
        'valid': 40, 'invalid': 40}),
    Scenario('history', history, 96, 4000, need={
        'valid': 100, 'invalid': 100, 'signed': 80}),
    Scenario('crowd', crowd(signing, damage, transport), 32, 1200, need={
        'crowds': 16, 'switches': 20}, max_s=120),
]
