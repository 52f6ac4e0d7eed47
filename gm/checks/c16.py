"""Every message of a chain names the task it is about."""
from golem_messages import exceptions, shortcuts

from gm import chain, gen, ref, spec
from gm.core import Scenario
from gm.crowd import crowd

PROPERTY = 'C16'
RULE = ('A case builds a task message chain (one task throughout, or a'
        ' different one under each slot, with optional members missing and'
        ' ids or tasks empty) and compares task_id, subtask_id,'
        ' task_to_compute, provider_id and requestor_id of every member,'
        ' live and loaded, to a model made of the protocol table. Distinct:'
        ' (type, members present, ids seen).')
CHAIN = [t for t in sorted(spec.TYPES) if spec.has_chain(t)]
NAMES = ('task_id', 'subtask_id', 'provider_id', 'requestor_id')
MULTI = [t for t in CHAIN if len(spec.TYPES[t].msgs) > 1]


def compare(ctx, msg, mode):
    for path, m in gen.walk(msg):
        if not chain.is_chain(m):
            continue
        label = '%s%s of %s (%s)' % (type(m).__name__, path,
                                     type(msg).__name__, mode)
        for name in NAMES:
            want = chain.accessor(m, name)
            ctx.eq(getattr(m, name), want, '%s of %s' % (name, label),
                   'accessor:' + name)
            ctx.event('named' if want else 'nameless')
        want = chain.accessor(m, 'task_to_compute')
        ctx.check(m.task_to_compute is want, 'task_to_compute of ' + label,
                  'accessor:task_to_compute')
        if want is not None and want is not m:
            ctx.event('indirect')


def coherent(ctx):
    rng = ctx.rng
    type_id = CHAIN[ctx.index % len(CHAIN)]
    cast = gen.Cast(rng)
    maker = gen.Maker(rng, cast=cast, sign='mixed', anchor=rng.random() < 0.7,
                      ts=rng.randint(1500000000, 1900000000))
    msg = maker.make(type_id, nested=True)
    msg.sig = None
    compare(ctx, msg, 'live')
    present = tuple(p for p, _ in gen.walk(msg))
    ttc = chain.accessor(msg, 'task_to_compute')
    if ttc is not None:
        # independent of the model: one task, so one answer everywhere
        for _, m in gen.walk(msg):
            if chain.is_chain(m) and m.task_to_compute is not None:
                ctx.check(
                    m.task_id == ttc.compute_task_def['task_id']
                    and m.subtask_id == ttc.compute_task_def['subtask_id']
                    and m.provider_id == ttc.provider_id
                    and m.requestor_id == ttc.requestor_id,
                    '%s is about another task' % type(m).__name__,
                    'accessor:coherent')
        ctx.event('coherent')
    wire = shortcuts.dump(msg, cast.provider.priv, cast.requestor.pub)
    back = shortcuts.load(wire, cast.requestor.priv, cast.provider.pub,
                          check_time=False)
    compare(ctx, back, 'loaded')
    for name in NAMES:
        ctx.eq(getattr(back, name), getattr(msg, name),
               '%s of %s changed by the wire' % (name, type(msg).__name__),
               'accessor:wire')
    ctx.event('loaded')
    ctx.distinct(type_id, present, msg.task_id is None)
    ctx.sample((spec.TYPES[type_id].name, present, msg.task_id))


def mixed(ctx):
    """A task of its own under every slot; some tasks without ids."""
    rng = ctx.rng
    type_id = rng.choice(MULTI if rng.random() < 0.7 else CHAIN)
    cast = gen.Cast(rng)
    t = spec.TYPES[type_id]
    over = {}
    shape = []
    for slot in t.msgs:
        inner, allow_none, _ = t.msgs[slot]
        if allow_none and rng.random() < 0.35:
            over[slot] = None
            shape.append('-')
            continue
        other = gen.Maker(rng, cast=gen.Cast(rng), sign='none',
                          anchor=rng.random() < 0.8)
        m = other.make(inner, nested=True)
        if not chain.is_chain(m):
            over[slot] = m
            shape.append('x')
            continue
        kind = rng.randrange(6)
        ttc = chain.accessor(m, 'task_to_compute')
        if ttc is None:
            kind = 9
        elif kind == 0:
            ttc.compute_task_def['task_id'] = ''
        elif kind == 1:
            ttc.compute_task_def['subtask_id'] = ''
        elif kind == 2:
            ttc.compute_task_def = None
        elif kind == 3:
            ttc.provider_id = rng.choice([None, ''])
        elif kind == 4:
            ttc.requestor_id = rng.choice([None, ''])
        shape.append(kind)
        over[slot] = m
    msg = gen.Maker(rng, cast=cast, sign='none').make(type_id, **over)
    compare(ctx, msg, 'live')
    ctx.event('mixed')
    ctx.distinct(type_id, tuple(shape))


def replaced(ctx):
    """Asked, changed, asked again."""
    rng = ctx.rng
    type_id = CHAIN[ctx.index % len(CHAIN)]
    maker = gen.Maker(rng, sign='none', anchor=rng.random() < 0.8)
    msg = maker.make(type_id, nested=True)
    if rng.random() < 0.4:
        msg.sig = None
        cast = maker.cast
        msg = shortcuts.load(
            shortcuts.dump(msg, cast.provider.priv, None), None,
            cast.provider.pub, check_time=False)
    compare(ctx, msg, 'first')
    steps = []
    for _ in range(rng.randrange(2, 6)):
        other = gen.Maker(rng, cast=gen.Cast(rng), sign='none', anchor=True)
        spots = []
        for path, m in gen.walk(msg):
            if gen.type_id_of(m) == 2002:
                spots += [(path, m, s) for s in (
                    'provider_id', 'requestor_id', 'compute_task_def',
                    'task_id', 'subtask_id')]
            elif chain.is_chain(m):
                t = spec.TYPES[gen.type_id_of(m)]
                spots += [(path, m, s) for s in t.msgs if not t.msgs[s][2]]
        if not spots:
            break
        path, m, slot = rng.choice(spots)
        if slot in ('provider_id', 'requestor_id'):
            setattr(m, slot, rng.choice(
                [other.cast.provider.hex, other.cast.other.hex, None]))
        elif slot == 'compute_task_def':
            m.compute_task_def = other.ttc().compute_task_def
        elif slot in ('task_id', 'subtask_id'):
            if m.compute_task_def is None:
                continue
            m.compute_task_def[slot] = rng.choice(['', 'x', gen.text(rng)])
        else:
            inner, allow_none, _ = spec.TYPES[gen.type_id_of(m)].msgs[slot]
            setattr(m, slot, None if allow_none and rng.random() < 0.3
                    else other.make(inner, nested=True))
        steps.append((path, slot))
        compare(ctx, msg, 'after %s of %r changed' % (slot, path))
        ctx.event('replaced')
    ctx.distinct(type_id, tuple(steps))


def ttc_properties(ctx):
    rng = ctx.rng
    cast = gen.Cast(rng)
    maker = gen.Maker(rng, cast=cast, sign='none')
    ttc = maker.ttc()
    wtct = ttc.want_to_compute_task
    if rng.random() < 0.4:
        wtct.provider_public_key = cast.other.hex
        wtct.provider_ethereum_address = cast.requestor_eth.address
    if rng.random() < 0.4:
        ttc.requestor_ethereum_public_key = rng.choice(
            list(cast.keys.values())).hex
    for mode in ('live', 'loaded'):
        ctx.eq(ttc.provider_public_key, wtct.provider_public_key,
               'provider_public_key', 'ttc:provider_public_key')
        ctx.eq(ttc.provider_ethereum_address, wtct.provider_ethereum_address,
               'provider_ethereum_address', 'ttc:provider_ethereum_address')
        ctx.eq(ttc.requestor_ethereum_address, ref.address(
            bytes.fromhex(ttc.requestor_ethereum_public_key)),
            'requestor_ethereum_address', 'ttc:requestor_ethereum_address')
        ctx.check(ttc.task_to_compute is ttc, 'task_to_compute of itself',
                  'ttc:itself')
        ctx.eq(wtct.task_id, wtct.task_header.task_id, 'offer\'s task_id',
               'wtct:task_id')
        if mode == 'loaded':
            break
        ttc.ethsig = None
        ttc.generate_ethsig(next(
            k for k in cast.keys.values()
            if k.hex == ttc.requestor_ethereum_public_key.lower()).priv)
        wire = shortcuts.dump(ttc, cast.requestor.priv, None)
        ttc = shortcuts.load(wire, None, cast.requestor.pub,
                             check_time=False)
        wtct = ttc.want_to_compute_task
    ctx.event('ttc')
    ctx.distinct(ttc.requestor_ethereum_address,
                 ttc.provider_ethereum_address)


def empty(ctx):
    """A message of a chain without anything in it names nothing."""
    type_id = CHAIN[ctx.index % len(CHAIN)]
    cls = gen.cls_of(type_id)
    try:
        msg = cls()
    except exceptions.MessageError:
        ctx.event('not constructible')
        return
    for name in NAMES:
        ctx.check(getattr(msg, name) is None, '%s of an empty %s' % (
            name, cls.__name__), 'empty')
    ctx.event('empty')
    ctx.distinct(type_id)


SCENARIOS = [
    Scenario('coherent', coherent, len(CHAIN) * 14, len(CHAIN) * 400, need={
        'named': 3000, 'nameless': 20, 'indirect': 600, 'coherent': 250,
        'loaded': 300}),
    Scenario('mixed', mixed, 400, 12000, need={
        'mixed': 400, 'named': 1000, 'nameless': 100}),
    Scenario('replaced', replaced, len(CHAIN) * 6, len(CHAIN) * 250,
             need={'replaced': 300}),
    Scenario('ttc_properties', ttc_properties, 100, 4000, need={'ttc': 100}),
    Scenario('empty', empty, len(CHAIN), len(CHAIN), need={'empty': 20}),
    Scenario('crowd', crowd(coherent, mixed), 32, 1200, need={
        'crowds': 16, 'switches': 20}, max_s=120),
]
