"""Round trip: dump then load gives back the same message."""
from golem_messages import shortcuts

from gm import gen, ref, spec
from gm.core import Scenario
from gm.crowd import crowd

PROPERTY = 'C01'
RULE = ('A case builds one seeded message (or a history of several, by several'
        ' parties) of a registered type with typed boundary and free-form slot'
        ' values, nested messages, plain or encrypted, signed or not, dumps'
        ' it, loads it, and compares every slot at every depth. Distinct and'
        ' non-trivial: (type, signed, encrypted, nesting mode, set of slots'
        ' filled).')

TYPE_IDS = sorted(spec.TYPES)


def comparable(msg):
    return gen.describe(msg)


def is_filled(value):
    return value is not None and not (
        isinstance(value, (list, dict)) and not value)


def filled(msg):
    return tuple(i for i, s in enumerate(
        spec.TYPES[gen.type_id_of(msg)].slots)
        if is_filled(getattr(msg, s)))


def pick_ts(rng):
    r = rng.random()
    if r < 0.4:
        return gen.integer(rng, gen.MIN_TS + 2000, gen.MAX_TS - 1)
    return gen.integer(rng, 1500000000, 1900000000)


def exchange(ctx, msg, sender, receiver, signed, encrypted, verify=True):
    type_id = gen.type_id_of(msg)
    t = spec.TYPES[type_id]
    before = gen.content(msg)
    header = (msg.header.type_, msg.timestamp)
    wire = shortcuts.dump(msg, sender.priv if signed else None,
                          receiver.pub if encrypted else None)
    ctx.eq(gen.content(msg), before, 'dump() changed the content')
    got = shortcuts.load(wire, receiver.priv if encrypted else None,
                         sender.pub if signed and verify else None,
                         check_time=False)
    ctx.check(type(got) is type(msg), 'another class came back',
              want=type(msg).__name__, got=type(got).__name__)
    ctx.eq((got.header.type_, got.timestamp), header, 'header changed')
    ctx.eq(got.sig, msg.sig, 'signature changed')
    for (slot, a), (_, b) in zip(before, gen.content(got)):
        if a != b:
            ctx.fail('slot %s of %s changed on the way' % (slot, t.name),
                     'content', sent=a, got=b)
    ctx.event('roundtrips')
    ctx.event('nested', sum(1 for _ in gen.walk(got)) - 1)
    # a second hop by someone who only forwards what was received
    again = shortcuts.dump(got, None, receiver.pub if encrypted else None)
    first, second = ref.Frame(wire), ref.Frame(again)
    ctx.eq(second.sig, first.sig, 'forwarding changed the signature')
    if encrypted and t.encrypt:
        a = ref.ecies_decrypt(first.body, receiver.priv)
        b = ref.ecies_decrypt(second.body, receiver.priv)
        ctx.check(a is not None and b is not None, 'undecryptable body')
    else:
        a, b = first.body, second.body
    ctx.eq(b, a, 'forwarding changed the payload bytes')
    ctx.eq(second.version, first.version, 'forwarding changed the version')
    ctx.distinct(type_id, signed, encrypted, filled(msg),
                 sum(1 for _ in gen.walk(got)))
    return got


def one(ctx):
    rng = ctx.rng
    type_id = TYPE_IDS[ctx.index % len(TYPE_IDS)]
    mode = rng.choice(['all', 'all', 'mixed', 'none'])
    maker = gen.Maker(rng, sign=mode, ts=pick_ts(rng),
                      hostile=rng.choice([0, 0.2, 0.6]),
                      spread=rng.choice([0, 0, 500]))
    msg = maker.make(type_id)
    signed = rng.random() < 0.6
    encrypted = rng.random() < 0.6
    sender, receiver = maker.cast.provider, maker.cast.requestor
    if type_id == 2002:
        # built signed by its owner already
        signed = msg.sig is None and signed
    ctx.sample((msg.__class__.__name__, mode, signed, encrypted,
                gen.describe(msg)))
    exchange(ctx, msg, sender, receiver, signed, encrypted)
    ctx.event('type_%d' % type_id)


def large(ctx):
    """Payloads around and beyond 64 KiB, deep free-form values."""
    rng = ctx.rng
    maker = gen.Maker(rng, ts=pick_ts(rng))
    size = rng.choice([65535, 65536, 65537, 70000, 131072, 200000])
    blob = bytes(rng.getrandbits(8) for _ in range(256)) * (size // 256 + 1)
    blob = blob[:size]
    kind = rng.randrange(8)
    if kind >= 5:
        many_of(ctx, maker, kind)
        return
    if kind == 0:
        msg = maker.make(1, rand_val=blob)
    elif kind == 1:
        msg = maker.make(2004, extra_data={'x': 'ż' * (size // 2)})
    elif kind == 2:
        deep = 0
        for i in range(rng.choice([20, 60, 120])):
            deep = [deep, i] if i % 2 else {'k%d' % i: deep}
        msg = maker.make(3008, options=deep, resource=list(
            range(rng.choice([300, 70000 // 8]))))
    elif kind == 3:
        msg = maker.make(1006, tasks=[
            gen.task_header(rng, maker.cast.requestor)
            for _ in range(rng.choice([24, 60]))])
    else:
        msg = maker.make(4018, subtask_results_accepted_list=[
            maker.make(2010, nested=True)
            for _ in range(rng.choice([23, 24, 30]))])
    wire_len = len(ref.cbor_enc(gen.plain_slots(msg)))
    if wire_len > 65536:
        ctx.event('over_64k')
    exchange(ctx, msg, maker.cast.provider, maker.cast.requestor,
             True, rng.random() < 0.5)


def many_of(ctx, maker, kind):
    """Lists far longer than usual: nothing says how many there can be."""
    rng = ctx.rng
    n = rng.choice([99, 101, 128, 129, 255, 256, 257, 300, 511, 513])
    if kind == 5:
        over = {1017: {'remove_tasks': [
            maker.make(1007, nested=True, sign=rng.random() < 0.3)
            for _ in range(n)]}}
    elif kind == 6:
        over = rng.choice([
            {1009: {'resource_peers': [
                gen.freeform(rng, 1) for _ in range(n * 4)]}},
            {1011: {'gossip': [gen.freeform(rng, 1) for _ in range(n * 4)]}},
            {2001: {'extra_data': {'%x' % i: i for i in range(n * 4)}}},
        ])
    else:
        over = rng.choice([
            {1004: {'peers': [gen.peer(rng) for _ in range(n)]}},
            {1006: {'tasks': [gen.task_header(rng, maker.cast.requestor)
                              for _ in range(n // 2)]}},
            {4005: {'files': [gen.file_info(rng) for _ in range(n)]}},
        ])
    (type_id, fields), = over.items()
    msg = maker.make(type_id, **fields)
    ctx.event('long_lists')
    exchange(ctx, msg, maker.cast.provider, maker.cast.requestor,
             True, rng.random() < 0.5)


def history(ctx):
    """Several parties, interleaved traffic: no message is affected by the
    ones dumped or loaded before or in between."""
    rng = ctx.rng
    cast = gen.Cast(rng)
    parties = [cast.provider, cast.requestor, cast.concent]
    in_flight = []
    for step in range(rng.choice([6, 12, 25])):
        if in_flight and rng.random() < 0.5:
            wire, want, receiver, sender = in_flight.pop(
                rng.randrange(len(in_flight)))
            got = shortcuts.load(wire, receiver.priv, sender.pub,
                                 check_time=False)
            ctx.eq(gen.describe(got), want, 'message changed in flight',
                   'history')
            ctx.event('delivered')
        else:
            maker = gen.Maker(rng, cast=cast, ts=pick_ts(rng))
            type_id = rng.choice(TYPE_IDS)
            msg = maker.make(type_id, sign=(False if type_id == 2002
                                            else None))
            sender, receiver = rng.sample(parties, 2)
            wire = shortcuts.dump(
                msg, sender.priv,
                receiver.pub if rng.random() < 0.7 else None)
            in_flight.append((wire, gen.describe(msg), receiver, sender))
            ctx.distinct(step, type_id)
    for wire, want, receiver, sender in in_flight:
        got = shortcuts.load(wire, receiver.priv, sender.pub,
                             check_time=False)
        ctx.eq(gen.describe(got), want, 'message changed in flight', 'history')
        ctx.event('delivered')


SCENARIOS = [
    Scenario('one', one, 63 * 40, 63 * 600,
             need=dict({'roundtrips': 63 * 30, 'nested': 2000},
                       **{'type_%d' % t: 20 for t in TYPE_IDS})),
    Scenario('large', large, 120, 1500, need={
        'roundtrips': 80, 'over_64k': 30, 'long_lists': 20}),
    Scenario('history', history, 160, 4000, need={'delivered': 500}),
    Scenario('crowd', crowd(one), 32, 1200, need={
        'crowds': 16, 'switches': 20}, max_s=120),
]
