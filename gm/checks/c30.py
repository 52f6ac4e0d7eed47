"""Messages keep themselves to themselves."""
import copy
import sys
import threading

from golem_messages import exceptions, shortcuts, utils
from golem_messages.message import base, tasks

from gm import gen, ref, spec
from gm.core import Scenario

PROPERTY = 'C30'
RULE = ('A case takes a message of some type through a random run of'
        ' operations that only look (dump, load, copy_and_sign, hash,'
        ' verify, compare, represent, validate, ask for any property) and compares its content'
        ' before and after; or loads the same bytes twice, or in several'
        ' threads, scribbles over one result and looks at the other.'
        ' Distinct: (type, operations) or (type, places scribbled on).')
TYPE_IDS = sorted(spec.TYPES)


def maker_for(ctx):
    return gen.Maker(ctx.rng, sign=ctx.rng.choice(['all', 'mixed']),
                     anchor=True, ts=ctx.rng.randint(1500000000, 1900000000))


def shapes(msg):
    """The very kinds of what the fields hold."""
    return [(p, s, exact(getattr(m, s))) for p, m in gen.walk(msg)
            for s in spec.TYPES[gen.type_id_of(m)].slots]


def inner(msg):
    """What may never change by looking: everything but the outer signature
    and the transport's flag."""
    return (type(msg).__name__, msg.header.type_, msg.timestamp,
            gen.content(msg), shapes(msg), [
                (id(m), m.header, m.sig) for p, m in gen.walk(msg) if p])


def quiet(fn):
    try:
        return fn()
    except (exceptions.MessageError, AttributeError, TypeError):
        return None     # C04, C13-C18 judge the verdicts


QUESTIONS = [
    ('verify_ethsig', ()), ('validate_taskid', ()), ('is_valid', ()),
    ('is_valid_for_requestor', ()),
    ('verify_promissory_note', ('0x' + 'Ab' * 20,)),
    ('verify_all_promissory_notes', ('0x' + 'cd' * 20,)),
    ('verify_concent_promissory_note', ('0x' + '12' * 20,)),
    ('get_file_info', ('resources',)), ('get_file_info', ('results',)),
    ('validate_ownership', ()),
]


def ask(ctx, m):
    """Everything that can be asked of one message."""
    cls = type(m)
    for name in dir(cls):
        if isinstance(getattr(cls, name), property):
            try:
                getattr(m, name)
                ctx.event('answers')
            except Exception:       # C15-C18 judge the answers
                pass
    for name, args in QUESTIONS:
        try:
            getattr(m, name)(*args)
            ctx.event('answers')
        except Exception:
            pass


def looking(ctx):
    rng = ctx.rng
    type_id = TYPE_IDS[ctx.index % len(TYPE_IDS)]
    maker = maker_for(ctx)
    msg = maker.make(type_id)
    keys = maker.cast.keys
    if rng.random() < 0.5:
        msg.sig = None
        me, them = keys['provider'], keys['requestor']
        data = shortcuts.dump(msg, me.priv, them.pub)
        try:
            msg = shortcuts.load(data, them.priv, me.pub, check_time=False)
        except exceptions.ValidationError:
            pass
    before = inner(msg)
    chain = isinstance(msg, tasks.TaskMessage)
    ops = []
    for _ in range(rng.choice([3, 6, 12])):
        k = rng.choice(list(keys.values()))
        op = rng.choice(['dump', 'dump', 'copy', 'repr', 'hash', 'verify',
                         'eq', 'slots', 'load', 'valid', 'chain', 'ids',
                         'ask'])
        sig = msg.sig
        if op == 'dump':
            if sig is None:
                one = shortcuts.dump(msg, k.priv, None)
                ctx.eq(one, shortcuts.dump(msg, None, None), 'dumped twice',
                       'dump')
                msg.sig = rng.choice([None, msg.sig])
            else:
                one = shortcuts.dump(msg, None, rng.choice([None, k.pub]))
                ctx.eq(one[11:76], sig, 'signature sent', 'dump')
                ctx.check(msg.sig == sig, 'signature changed', 'dump')
        else:
            if op == 'copy':
                twin = utils.copy_and_sign(msg, k.priv)
                if sig is None:
                    twin.sig = b'junk'
                    h = twin.header
                    twin.header = type(h)(h.type_, h.timestamp + 1, True)
            elif op == 'repr':
                for _, m in gen.walk(msg):
                    for s in spec.TYPES[gen.type_id_of(m)].slots:
                        repr(getattr(m, s))
                        str(getattr(m, s))
                repr(msg)
                str(msg)
            elif op == 'hash':
                ctx.eq(msg.get_short_hash(), msg.get_short_hash(), 'hash',
                       'hash')
            elif op == 'verify':
                quiet(lambda: msg.verify_signature(k.pub))
            elif op == 'eq':
                ctx.check(quiet(lambda: msg == gen.clone(msg)) is not False,
                          'not equal to its copy', 'eq')
            elif op == 'slots':
                ctx.eq(ref.cbor_enc(msg.slots()), ref.cbor_enc(
                    gen.plain_slots(msg)), 'slots', 'slots')
            elif op == 'load':
                data = ref.frame(
                    type_id, msg.timestamp, False, sig or ref.ZERO_SIG,
                    ref.cbor_enc(gen.plain_slots(msg)), '2.24.3')
                buf = bytearray(data)
                quiet(lambda: shortcuts.load(
                    bytes(buf), None, None, check_time=False))
                ctx.check(bytes(buf) == data, 'input changed', 'load')
            elif op == 'valid' and chain:
                quiet(msg.is_valid)
            elif op == 'chain' and chain:
                quiet(lambda: msg.validate_ownership_chain(
                    keys['concent'].pub))
                quiet(lambda: msg.verify_owners(
                    keys['provider'].pub, keys['requestor'].pub,
                    keys['concent'].pub))
            elif op == 'ask':
                for _, m in gen.walk(msg):
                    ask(ctx, m)
            elif op == 'ids' and chain:
                quiet(lambda: (msg.task_id, msg.subtask_id,
                               msg.requestor_id, msg.provider_id))
            ctx.check(msg.sig == sig, '%s changed the signature' % op,
                      'looking')
        ctx.eq(inner(msg), before, '%s changed the message' % op, 'looking')
        ops.append(op)
        ctx.event('looks')
    ctx.distinct(type_id, tuple(ops))
    ctx.sample((spec.TYPES[type_id].name, ops))


def scribble(v, places, path=()):
    """Changes whatever can be changed in place, as deep as it goes."""
    name = type(v).__name__
    if name in gen.CONTAINER_FIELDS:
        for f in gen.CONTAINER_FIELDS[name]:
            scribble(getattr(v, f), places, path + (f,))
            setattr(v, f, 'scribbled')
            places.append(path + (f,))
    elif isinstance(v, dict):
        for key in list(v):
            scribble(v[key], places, path + (key,))
            dict.__setitem__(v, key, 'scribbled')
        dict.__setitem__(v, 'scribble', 1)
        places.append(path)
    elif isinstance(v, list):
        for i, x in enumerate(v):
            scribble(x, places, path + (i,))
        v[:] = v[:1]
        v.append('scribbled')
        places.append(path)
    elif name in spec.BY_NAME:
        for s in spec.TYPES[spec.BY_NAME[name]].slots:
            scribble(getattr(v, s), places, path + (s,))
            setattr(v, s, 'scribbled')
        places.append(path)


def exact(v):
    """Down to the types."""
    if isinstance(v, dict):
        return (type(v).__name__, [(exact(k), exact(x))
                                   for k, x in v.items()])
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [exact(x) for x in v])
    if isinstance(v, base.Message):
        return (type(v).__name__, id(v))
    return (type(v).__name__, repr(v))


def thin(rng, v, p):
    """Some of the optional parts of what a message is made of missing."""
    if isinstance(v, dict):
        for k in list(v):
            if rng.random() < p:
                del v[k]
            else:
                thin(rng, v[k], p)
    elif isinstance(v, list):
        for x in v:
            thin(rng, x, p)


def given(ctx):
    """Messages made of pairs, as decoded from the wire: what was handed over
    stays as it was, whether or not it will do."""
    rng = ctx.rng
    type_id = TYPE_IDS[ctx.index % len(TYPE_IDS)]
    cls = gen.cls_of(type_id)
    t = spec.TYPES[type_id]
    msg = maker_for(ctx).make(type_id)
    for p in (0, 0.1, rng.choice([0.05, 0.3, 0.6])):
        pairs = copy.deepcopy(gen.plain_slots(msg))
        for slot, value in pairs:
            if slot not in t.msgs:
                thin(rng, value, p)
        if rng.random() < 0.3:
            rng.shuffle(pairs)
        if rng.random() < 0.3:
            pairs = [tuple(x) for x in pairs]
        if rng.random() < 0.3:
            pairs = dict(pairs)
        before = exact(pairs)
        made = []
        for _ in range(2):
            try:
                made.append(cls(header=msg.header, sig=msg.sig, slots=pairs))
            except Exception:       # C11 and C22 judge refusals
                ctx.event('refused')
        ctx.check(exact(pairs) == before, '%s changed the pairs it was'
                  ' given' % t.name, 'given:changed',
                  before=before, after=exact(pairs))
        if len(made) == 2:
            ctx.eq(gen.canon(made[0]), gen.canon(made[1]), 'made twice',
                   'given:twice')
            ctx.event('made')
            # nor does using them
            for m in made:
                quiet(m.get_short_hash)
                quiet(m.slots)
            ctx.check(exact(pairs) == before, 'using %s changed the'
                      ' pairs it was given' % t.name, 'given:changed')
    # the same for the fields of the other way
    fields = {s: gen.clone_value(getattr(msg, s)) for s in t.slots}
    kept = {s: gen.canon(v) for s, v in fields.items()}
    cls(header=msg.header, sig=msg.sig, **fields)
    ctx.eq({s: gen.canon(v) for s, v in fields.items()}, kept,
           'changed the fields it was given', 'given:changed')
    ctx.distinct(type_id, len(repr(pairs)))


def apart(ctx):
    """Two messages read from the same bytes, or built with defaults."""
    rng = ctx.rng
    type_id = TYPE_IDS[ctx.index % len(TYPE_IDS)]
    cls = gen.cls_of(type_id)
    blank = cls()
    empty = gen.content(blank)
    maker = maker_for(ctx)
    msg = maker.make(type_id)
    data = ref.frame(type_id, msg.timestamp, False, msg.sig or ref.ZERO_SIG,
                     ref.cbor_enc(gen.plain_slots(msg)), '2.24.3')
    try:
        one, two = [shortcuts.load(data, None, None, check_time=False)
                    for _ in range(2)]
    except exceptions.ValidationError:
        one, two = msg, gen.clone(msg)
        ctx.event('not loadable')
    before = gen.describe(two)
    ctx.eq(gen.describe(one), before, 'loaded twice', 'apart:loaded')
    places = []
    for s in spec.TYPES[type_id].slots:
        scribble(getattr(one, s), places, (s,))
    scribble(one, places)
    ctx.eq(gen.describe(two), before, 'scribbled over its twin',
           'apart:loaded')
    try:
        three = shortcuts.load(data, None, None, check_time=False)
    except exceptions.ValidationError:
        pass
    else:
        ctx.eq(gen.describe(three), gen.describe(two), 'loaded afterwards',
               'apart:later')
    ctx.eq(gen.content(blank), empty, 'a blank one changed', 'apart:blank')
    other = cls()
    scribble(other, places)
    ctx.eq(gen.content(blank), empty, 'a blank one changed', 'apart:blank')
    ctx.eq(gen.content(cls()), empty, 'a later blank one differs',
           'apart:blank')
    ctx.event('pairs')
    ctx.event('places', len(places))
    ctx.distinct(type_id, tuple(places[:60]))


def containers(ctx):
    """The same for what messages are made of."""
    rng = ctx.rng
    kinds = [
        lambda f: gen.dt_p2p.Node(**f), lambda f: gen.dt_tasks.TaskHeader(**f),
        lambda f: gen.dt_stats.ProviderStats(**f),
        lambda f: gen.dt_p2p.Peer(f), lambda f: tasks.ComputeTaskDef(f)]
    i = ctx.index % len(kinds)
    fields = [
        lambda: gen.node_fields(rng),
        lambda: {'subtasks_count': 1, 'min_version': '2.24.0',
                 'task_owner': {'key': 'ab' * 64}, 'mask': None},
        lambda: gen.stats_fields(rng),
        lambda: {'address': '1.2.3.4', 'port': 5,
                 'node': gen.node_fields(rng)},
        lambda: {}][i]()
    given = copy.deepcopy(fields)
    if i == 1:
        given.update({'task_id': 'x', 'timestamp': 5})
        fields.update({'task_id': 'x', 'timestamp': 5})
    made = []
    for _ in range(3):
        made.append(kinds[i](copy.deepcopy(given)))
    want = gen.canon(made[1])
    places = []
    scribble(made[0], places)
    ctx.eq(gen.canon(made[1]), want, 'scribbled over its twin',
           'containers:shared')
    ctx.eq(gen.canon(kinds[i](copy.deepcopy(given))), want,
           'later one differs', 'containers:shared')
    for look in (repr, str, bool, lambda v: v == made[2],
                 lambda v: v != made[2], lambda v: made[2] == v,
                 lambda v: '%s %r' % (v, [v]), copy.copy):
        look(made[1])
        ctx.eq(gen.canon(made[1]), want, 'looking changed it',
               'containers:looking')
    # looking at one does not change it, nor does its picture hold on to it
    if i < 3:
        picture = made[1].to_dict()
        ctx.eq(gen.canon(made[1]), want, 'to_dict changed it',
               'containers:to_dict')
        ctx.eq(gen.canon(made[1].to_dict()), gen.canon(picture),
               'to_dict differs', 'containers:to_dict')
    kinds[i](fields)
    ctx.eq(gen.canon(fields), gen.canon(given), 'arguments changed',
           'containers:arguments')
    ctx.event('trios')
    ctx.distinct(i, tuple(places))


def threads(ctx):
    """Several threads at once, each with its own messages."""
    rng = ctx.rng
    n = rng.choice([2, 4, 8])
    jobs = []
    for _ in range(n):
        cast = gen.Cast(rng)
        mine = []
        for _ in range(rng.choice([2, 4])):
            maker = gen.Maker(rng, cast=cast, anchor=True,
                              ts=rng.randint(1500000000, 1900000000))
            type_id = rng.choice([t for t in TYPE_IDS
                                  if t not in (2010, 2011, 4004)])
            msg = maker.make(type_id)
            msg.sig = None
            mine.append((msg, gen.content(msg), rng.random() < 0.5))
        jobs.append((cast, mine))
    errors, done = [], []
    barrier = threading.Barrier(n)

    def body(cast, mine):
        try:
            barrier.wait(30)
            for msg, want, encrypted in mine:
                data = shortcuts.dump(
                    msg, cast.requestor.priv,
                    cast.provider.pub if encrypted else None)
                back = shortcuts.load(data, cast.provider.priv,
                                      cast.requestor.pub, check_time=False)
                if type(back) is not type(msg) or gen.content(back) != want \
                        or back.sig != msg.sig:
                    errors.append('%r became %r' % (msg, back))
                done.append(1)
        except Exception as e:
            errors.append(repr(e))

    interval = sys.getswitchinterval()
    sys.setswitchinterval(rng.choice([1e-6, 1e-5, 1e-4]))
    try:
        ts = [threading.Thread(target=body, args=j) for j in jobs]
        for t in ts:
            t.start()
        for t in ts:
            t.join(50)
    finally:
        sys.setswitchinterval(interval)
    ctx.eq(errors, [], 'in a thread', 'threads')
    ctx.eq(len(done), sum(len(m) for c, m in jobs), 'work done', 'threads')
    for cast, mine in jobs:
        for msg, want, _ in mine:
            ctx.eq(gen.content(msg), want, 'changed meanwhile', 'threads')
    ctx.event('runs')
    ctx.event('messages', len(done))
    ctx.distinct(n, tuple(type(m[0]).__name__ for c, ms in jobs for m in ms))


SCENARIOS = [
    Scenario('looking', looking, 500, 14000, need={'looks': 3000}),
    Scenario('given', given, 51 * 8, 51 * 200, need={'made': 300}),
    Scenario('apart', apart, 280, 8000, need={'pairs': 280, 'places': 2000}),
    Scenario('containers', containers, 200, 6000, need={'trios': 200}),
    Scenario('threads', threads, 40, 1200, need={'runs': 20}, max_s=120),
]
