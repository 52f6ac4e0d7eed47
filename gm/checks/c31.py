"""When two messages are equal."""
import datetime

from golem_messages import shortcuts
from golem_messages.message import base

from gm import gen, ref, spec
from gm.core import Scenario
from gm.crowd import crowd

PROPERTY = 'C31'
RULE = ('A case builds a message, an independent copy of it, changes nothing'
        ' or one thing in the copy (a slot at some depth, time, signature at'
        ' some depth, kind, own version, transport flag) and compares == and'
        ' != in both directions to an own reading of both. Distinct: (type,'
        ' change, path, verdict).')
TYPE_IDS = sorted(spec.TYPES)


def same(a, b, versions=True):
    return (versions and type(a) is type(b)
            and a.header.type_ == b.header.type_
            and a.timestamp == b.timestamp
            and a.sig == b.sig
            and gen.plain_slots(a) == gen.plain_slots(b))


def reorder(v):
    """Fills mappings in another order, in place; tells how many."""
    n = 0
    if isinstance(v, dict):
        items = list(v.items())
        if len(items) > 1:
            n += 1
        for k, x in items:
            n += reorder(x)
            dict.__delitem__(v, k)
        for k, x in reversed(items):
            dict.__setitem__(v, k, x)
    elif isinstance(v, list):
        n += sum(reorder(x) for x in v)
    elif type(v).__name__ in gen.CONTAINER_FIELDS:
        n += sum(reorder(getattr(v, f, None))
                 for f in gen.CONTAINER_FIELDS[type(v).__name__])
    return n


def judge(ctx, a, b, want, label):
    for x, y, way in ((a, b, 'a == b'), (b, a, 'b == a')):
        got = x == y
        ctx.check(got is want, '%s is %r (%s)' % (way, got, label),
                  'eq:%s' % ('missed' if want is False else 'denied'))
        ctx.check((x != y) is (not want), '!= (%s)' % label, 'ne')
    ctx.event('equal' if want else 'different')


def other_value(rng, v):
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + rng.choice([1, -1, 2**32])
    if isinstance(v, bytes):
        return v + b'\0'
    if isinstance(v, str):
        return v + rng.choice([' ', 'x', '\0'])
    if isinstance(v, list):
        return v + [None]
    if v is None:
        return rng.choice([0, '', False, [], b''])
    return None


def stamp(m, by):
    h = m.header
    m.header = type(h)(h.type_, h.timestamp + by, h.encrypted)


def announcing(hello, version):
    """The same Hello, as if sent by a library of that version."""
    wire = shortcuts.dump(gen.clone(hello), None, None)
    raw = version.encode()
    got = shortcuts.load(
        wire[:-32] + bytes([len(raw)]) + raw.ljust(31, b'\0'), None, None,
        check_time=False)
    got.header, got.sig = hello.header, hello.sig
    for slot in spec.TYPES[0].slots:
        setattr(got, slot, getattr(hello, slot))
    return got


def compared(ctx):
    rng = ctx.rng
    type_id = TYPE_IDS[ctx.index % len(TYPE_IDS)]
    maker = gen.Maker(rng, sign=rng.choice(['all', 'mixed', 'none']),
                      hostile=0.4, anchor=True,
                      ts=rng.randint(1500000000, 1900000000))
    a = maker.make(type_id)
    if rng.random() < 0.5:
        a.sig = rng.choice([None, ref.ZERO_SIG, ref.sign(
            maker.cast.other.priv, gen.message_hash(a))])
    b = gen.clone(a)
    judge(ctx, a, b, True, 'copy')
    judge(ctx, a, a, True, 'itself')
    c = gen.clone(a)
    moved = sum(reorder(getattr(m, s)) for _, m in gen.walk(c)
                for s in spec.TYPES[gen.type_id_of(m)].slots
                if s not in spec.TYPES[gen.type_id_of(m)].msgs)
    if moved and same(a, c):
        judge(ctx, a, c, True, 'mappings filled in another order')
        ctx.event('reordered')
    versions = True
    members = list(gen.walk(b))
    kinds = ['slot', 'slot', 'slot', 'time', 'sig', 'nested sig',
             'nested time', 'flag', 'type', 'version', 'swap']
    lists = [(m, s) for _, m in members for s in spec.TYPES[
        gen.type_id_of(m)].slots if isinstance(getattr(m, s), list)
        and len(getattr(m, s)) > 1]
    if lists:
        kinds += ['order'] * 4
    if type_id == 0:
        kinds += ['version'] * 9
    kind = rng.choice(kinds)
    path = ()
    if kind == 'slot':
        path, m = rng.choice(members)
        t = spec.TYPES[gen.type_id_of(m)]
        slots = [s for s in t.slots if s not in t.msgs]
        if slots:
            slot = rng.choice(slots)
            if slot in t.enums:
                value = rng.choice(list(gen.enum_class(
                    gen.type_id_of(m), slot)))
            elif slot in ('peers', 'tasks', 'files'):
                value = getattr(m, slot)[1:]
            else:
                value = other_value(rng, gen.plain_value(getattr(m, slot)))
            setattr(m, slot, value)
            path += (slot,)
    elif kind == 'time':
        stamp(b, rng.choice([1, -1, 86400]))
    elif kind == 'sig':
        b.sig = rng.choice([None, ref.ZERO_SIG, b'', (b.sig or b'x')[:-1]])
    elif kind.startswith('nested'):
        path, m = rng.choice(members)
        if kind == 'nested sig':
            m.sig = rng.choice([None, ref.ZERO_SIG, b'1' * 65])
        else:
            stamp(m, rng.choice([1, -1]))
    elif kind == 'order':
        m, slot = rng.choice(lists)
        value = list(getattr(m, slot))
        setattr(m, slot, rng.choice([value[::-1], value[1:] + value[:1],
                                     value + value[:1]]))
        path = (slot,)
        ctx.event('lists in another order')
    elif kind == 'flag':
        b.encrypted = not b.encrypted
    elif kind == 'type':
        h = b.header
        b.header = type(h)(h.type_ + 1, h.timestamp, h.encrypted)
    elif kind == 'version' and type_id == 0:
        version = rng.choice(['2.24.4', '2.24.3', '2.24.3+x'])
        versions = version == '2.24.3'
        b = announcing(b, version)
        ctx.event('versions')
    elif kind == 'swap':
        t = spec.TYPES[type_id]
        pairs = [(s, r) for s in t.slots for r in t.slots if s < r
                 and s not in t.msgs and r not in t.msgs
                 and not {(type_id, s), (type_id, r)} & set(spec.NODE_SLOTS)]
        if pairs:
            s, r = rng.choice(pairs)
            path = (s, r)
            v, w = getattr(b, s), getattr(b, r)
            safe = (int, str, bytes, type(None), float)
            if isinstance(v, safe) and isinstance(w, safe):
                setattr(b, s, w)
                setattr(b, r, v)
    want = same(a, b, versions)
    judge(ctx, a, b, want, kind)
    ctx.distinct(type_id, kind, path, want)
    ctx.sample((spec.TYPES[type_id].name, kind, path, want))


def kinds(ctx):
    """Messages of different kinds, and things that are no messages."""
    rng = ctx.rng
    one = TYPE_IDS[ctx.index % len(TYPE_IDS)]
    ts = rng.randint(1500000000, 1900000000)
    a = gen.Maker(rng, ts=ts).build(one, {})
    for two in TYPE_IDS:
        if two == one:
            continue
        b = gen.Maker(rng, ts=ts).build(two, {})
        b.header = a.header
        for x, y in ((a, b), (b, a)):
            try:
                got = x == y
            except base.exceptions.FieldError:
                got = None       # can't be put into words
            ctx.check(got is False, '%s == %s: %r' % (
                type(x).__name__, type(y).__name__, got), 'kind')
    sub = type('Sub', (type(a),), {'__slots__': list(type(a).__slots__)})
    b = sub(header=a.header, sig=a.sig)
    for s in spec.TYPES[one].slots:
        setattr(b, s, getattr(a, s))
    ctx.check((a == b) is False, 'equal to a subclass', 'kind')
    class Imitator:
        _version = getattr(a, '_version', None)
        header, sig, timestamp, encrypted = a.header, a.sig, a.timestamp, False

    class Twin(Imitator):
        @staticmethod
        def slots():
            return a.slots()

        __slots__ = type(a).__slots__
    for odd in (None, 5, 'x', [], (), object(), a.header, Imitator(), Twin(),
                Imitator, type(a), ref.Frame,
                datetime.datetime.now()):
        ctx.check((a == odd) is False and (a != odd) is True,
                  '%s == %r' % (type(a).__name__, odd), 'kind')
    ctx.event('kinds')
    ctx.distinct(one)


SCENARIOS = [
    Scenario('compared', compared, 1400, 40000, need={
        'equal': 2800, 'different': 700, 'reordered': 300, 'versions': 4}),
    Scenario('kinds', kinds, 56, 560, need={'kinds': 56}),
    Scenario('crowd', crowd(compared), 32, 1200, need={
        'crowds': 16, 'switches': 20}, max_s=120),
]
