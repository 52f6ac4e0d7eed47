"""Making a message: what one gives is what it holds."""
import datetime
import time

import freezegun

from golem_messages import datastructures, shortcuts

from gm import gen, ref, spec
from gm.core import Scenario
from gm.crowd import crowd

PROPERTY = 'C36'
RULE = ('A case constructs a message of some type with a subset of its fields'
        ' as keywords, as wire pairs, or both, with or without header and'
        ' signature, at some moment in some time zone, and compares fields,'
        ' header, signature and text to a model. Distinct: (type, ways of'
        ' giving, fields given, moment).')
TYPE_IDS = sorted(spec.TYPES)
# what a field holds that was not given (the others: None)
BLANK = {(1004, 'peers'): [], (1006, 'tasks'): [],
         (1009, 'resource_peers'): [], (1011, 'gossip'): [],
         (2001, 'num_subtasks'): 1, (2001, 'concent_enabled'): False,
         (2002, 'concent_enabled'): False}
FALSY = [0, '', b'', False, 0.0]


def blank(type_id, slot):
    if (type_id, slot) == (2015, 'reason'):
        return gen.enum_class(2015, 'reason').ComputationError
    return BLANK.get((type_id, slot))


def holds(type_id, slot, value):
    """What the field holds when given this."""
    if slot == 'concent_enabled' and type_id in (2001, 2002):
        return bool(value)
    return blank(type_id, slot) if value is None else value


def value_for(ctx, maker, type_id, slot):
    rng = ctx.rng
    if type_id == 2002:
        return getattr(maker.ttc(sign=False), slot)
    guarded = (slot in spec.TYPES[type_id].msgs
               or slot in spec.TYPES[type_id].enums
               or (type_id, slot) in spec.NODE_SLOTS
               or (type_id, slot) in BLANK
               or (type_id, slot) in gen.SLOT_GENERATORS)
    if not guarded and rng.random() < 0.4:
        return rng.choice(FALSY)
    if slot in spec.TYPES[type_id].enums and rng.random() < 0.4:
        # nobody asked for a member of the enumeration
        member = rng.choice(list(gen.enum_class(type_id, slot)))
        return rng.choice([member.name, member.value, 'x' + member.name, 7,
                           member.name.lower()])
    return maker.slot_value(type_id, slot, maker.ts)


def agree(ctx, msg, type_id, want, label):
    for slot, value in want.items():
        have = getattr(msg, slot)
        ctx.check(have is value or gen.canon(have) == gen.canon(value),
                  '%s: %s of %s' % (label, slot, spec.TYPES[type_id].name),
                  'field', have=repr(have)[:300], want=repr(value)[:300])


def keywords(ctx):
    rng = ctx.rng
    type_id = TYPE_IDS[ctx.index % len(TYPE_IDS)]
    t = spec.TYPES[type_id]
    cls = gen.cls_of(type_id)
    maker = gen.Maker(rng, ts=rng.randint(1500000000, 1900000000))
    given = {s: value_for(ctx, maker, type_id, s) for s in t.slots
             if rng.random() < rng.choice([0.3, 0.8])}
    extra = {}
    if rng.random() < 0.5:
        extra['header'] = datastructures.MessageHeader(
            type_id, rng.choice([0, rng.randint(1500000000, 1900000000)])
            if rng.random() < 0.3 else rng.randint(1500000000, 1900000000),
            rng.random() < 0.3)
    if rng.random() < 0.5:
        extra['sig'] = rng.choice([None, ref.ZERO_SIG, b'', b'\0', b'x',
                                   bytes(rng.getrandbits(8)
                                         for _ in range(65))])
    items = list(dict(given, **extra).items())
    rng.shuffle(items)
    before = int(time.time())
    msg = cls(**dict(items))
    after = int(time.time())
    want = {s: holds(type_id, s, given.get(s)) for s in t.slots}
    agree(ctx, msg, type_id, want, 'constructed')
    for slot, value in given.items():
        if value is not None and not isinstance(value, (int, float)) and \
                not (isinstance(value, list) and not value):
            ctx.check(getattr(msg, slot) is value, '%s is a copy' % slot,
                      'field')
    ctx.event('falsy kept', sum(
        1 for v in given.values() if v is not None and not v))
    if 'header' in extra:
        ctx.check(tuple(msg.header) == tuple(extra['header']), 'header',
                  'header')
        ctx.eq((msg.timestamp, msg.encrypted), tuple(extra['header'])[1:],
               'header', 'header')
    else:
        ctx.eq((msg.header.type_, msg.encrypted, bool(msg.encrypted)),
               (type_id, False, False), 'header', 'header')
        ctx.check(before <= msg.timestamp <= after
                  and type(msg.timestamp) is int, 'time', 'header')
    ctx.check(msg.sig == extra.get('sig'), 'signature', 'sig')
    try:
        text = repr(msg)
    except Exception as e:
        ctx.fail('repr of %s: %r' % (t.name, e), 'repr')
    ctx.check(isinstance(text, str) and t.name.split('.')[1] in text,
              'repr of %s: %r' % (t.name, text[:200]), 'repr')
    ctx.raises(AttributeError, lambda: cls(no_such_field=1),
               '%s(no_such_field=1)' % t.name, 'unknown')
    ctx.raises(AttributeError, lambda: setattr(msg, 'no_such_field', 1),
               '%s.no_such_field = 1' % t.name, 'unknown')
    agree(ctx, msg, type_id, want, 'afterwards')
    ctx.event('made')
    ctx.distinct(type_id, tuple(sorted(given)), tuple(sorted(extra)))


def pairs(ctx):
    """Fields as they come off the wire; keywords fill what they leave."""
    rng = ctx.rng
    type_id = TYPE_IDS[ctx.index % len(TYPE_IDS)]
    t = spec.TYPES[type_id]
    cls = gen.cls_of(type_id)
    maker = gen.Maker(rng, sign='none',
                      ts=rng.randint(1500000000, 1900000000))
    source = maker.make(type_id)
    slots = [[k, v] for k, v in gen.plain_slots(source)
             if rng.random() < 0.6]
    if type_id == 1004 and not any(k == 'peers' for k, _ in slots):
        slots.append(['peers', []])
        source.peers = []
    rng.shuffle(slots)
    kw = {s: value_for(ctx, maker, type_id, s) for s in t.slots
          if rng.random() < 0.5}
    how = rng.choice(['list', 'dict', 'tuple'])
    data = {'list': slots, 'dict': dict(slots),
            'tuple': tuple(map(tuple, slots))}[how]
    names = {k for k, _ in slots}
    msg = cls(slots=data, **kw)
    ctx.eq({k for k, _ in slots}, names, 'the pairs were changed', 'pairs')
    ctx.eq(len(data), len(names), 'the pairs were changed', 'pairs')
    want = {}
    for s in t.slots:
        if s in names and getattr(source, s) is not None:
            want[s] = getattr(source, s)
            ctx.event('pairs win', s in kw)
        else:
            want[s] = holds(type_id, s, kw.get(s))
            ctx.event('keywords fill')
    agree(ctx, msg, type_id, want, 'pairs')
    ctx.event('made')
    ctx.distinct(type_id, how, tuple(sorted(names)), tuple(sorted(kw)))


MOMENTS = [1262304001, 1500000000, 1583020800, 1709164799, 1709164800,
           2147483647, 2147483648, 4102444800, 4294967296]


def moments(ctx):
    """A new message bears the second it is made in, in UTC, wherever and
    whenever that is."""
    rng = ctx.rng
    types = rng.sample(TYPE_IDS, 8)
    now = rng.choice(MOMENTS + [rng.randint(1262304001, 4294967295)] * 4)
    with freezegun.freeze_time() as frozen:
        for type_id in types:
            now += rng.choice([0, 0, 1, 3600, 86400 * 182])
            fraction = rng.choice([0, 0.25, 0.5, 0.999])
            frozen.move_to(datetime.datetime(1970, 1, 1) +
                           datetime.timedelta(seconds=now + fraction))
            msg = gen.cls_of(type_id)()
            ctx.eq((msg.header.type_, msg.timestamp, msg.encrypted),
                   (type_id, now, False), 'made at %r' % (now + fraction),
                   'moment')
            ctx.event('moments')
            ctx.distinct(type_id, now, fraction)
            if spec.TYPES[type_id].msgs or type_id in (2001, 2002, 4005):
                continue
            key, to = gen.distinct_keys(rng, 2)
            back = shortcuts.load(shortcuts.dump(msg, key.priv, to.pub),
                                  to.priv, key.pub)
            ctx.eq((back.timestamp, type(back)), (now, type(msg)),
                   'loaded at once', 'moment')
            ctx.event('loaded')


def flag(ctx):
    """Setting the transport flag touches nothing else."""
    rng = ctx.rng
    type_id = TYPE_IDS[ctx.index % len(TYPE_IDS)]
    maker = gen.Maker(rng, ts=rng.randint(1500000000, 1900000000))
    msg = maker.make(type_id)
    if rng.random() < 0.4:      # whatever its header says
        msg.header = datastructures.MessageHeader(
            rng.choice(TYPE_IDS), rng.randint(1500000000, 1900000000),
            rng.random() < 0.5)
        ctx.event('other headers')
    want, header = gen.describe(msg), tuple(msg.header)[:2]
    for _ in range(3):
        value = rng.random() < 0.5
        msg.encrypted = value
        ctx.check(msg.encrypted is value and msg.header.encrypted is value,
                  'flag', 'flag')
        ctx.eq(gen.describe(msg), want, 'setting the flag', 'flag')
        ctx.eq(tuple(msg.header)[:2], header, 'header', 'flag')
    ctx.event('flags')
    ctx.distinct(type_id)


SCENARIOS = [
    Scenario('keywords', keywords, 63 * 12, 63 * 300, need={
        'made': 63 * 12, 'falsy kept': 100}),
    Scenario('pairs', pairs, 63 * 8, 63 * 200, need={
        'made': 63 * 8, 'pairs win': 300, 'keywords fill': 500}),
    Scenario('moments', moments, 150, 4000, need={
        'moments': 1000, 'loaded': 300}),
    Scenario('flag', flag, 63 * 2, 63 * 20, need={
        'flags': 126, 'other headers': 30}),
    Scenario('crowd', crowd(keywords, pairs), 32, 1200, need={
        'crowds': 16, 'switches': 20}, max_s=120),
]
