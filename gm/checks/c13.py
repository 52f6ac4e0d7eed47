"""Nested messages: only the declared class, shape and presence."""
from golem_messages import exceptions, shortcuts

from gm import gen, ref, spec
from gm.core import Scenario
from gm.crowd import crowd

PROPERTY = 'C13'
RULE = ('A case picks a message type and one of its nested-message slots (at'
        ' any depth) and puts there, live or on the wire, a message of'
        ' another type, None, a list for a single one or the reverse, or a'
        ' malformed triple. Distinct: (type, slot path, kind, direction).')
HOLDERS = [t for t in sorted(spec.TYPES) if spec.TYPES[t].msgs]
SLOTS = [(t, s) for t in HOLDERS for s in sorted(spec.TYPES[t].msgs)]
TYPE_IDS = sorted(spec.TYPES)


def build(ctx, type_id, slot=None):
    rng = ctx.rng
    maker = gen.Maker(rng, ts=rng.randint(1500000000, 1900000000))
    over = {'sign': False} if type_id == 2002 else {}
    if slot is not None:
        nested, _, is_list = spec.TYPES[type_id].msgs[slot]
        value = maker.make(nested, nested=True)
        over[slot] = [value] if is_list else value
    return maker, maker.make(type_id, **over)


def live(ctx):
    """dump() of a message holding the wrong thing."""
    rng = ctx.rng
    type_id, slot = SLOTS[ctx.index % len(SLOTS)]
    nested, allow_none, is_list = spec.TYPES[type_id].msgs[slot]
    maker, msg = build(ctx, type_id, slot)
    good = getattr(msg, slot)
    shortcuts.dump(msg, None, None)
    others = [t for t in TYPE_IDS if t != nested]
    maker = gen.Maker(rng, cast=maker.cast, ts=maker.ts)
    for _ in range(5):
        wrong_type = rng.choice(others)
        wrong = maker.make(wrong_type, nested=True)
        bads = [(spec.TYPES[wrong_type].name, [wrong] if is_list else wrong)]
        if is_list:
            bads.append(('mixed list', [good[0], wrong]))
            bads.append(('mixed list', [wrong, good[0]]))
        for label, bad in bads:
            setattr(msg, slot, bad)
            e = ctx.raises(exceptions.MessageError,
                           lambda: shortcuts.dump(msg, None, None),
                           '%s dumped in slot %s of %s' % (
                               label, slot, spec.TYPES[type_id].name),
                           'dump:class')
            ctx.check(isinstance(e, exceptions.FieldError), 'kind: %r' % e,
                      'dump:kind')
            ctx.event('live')
            ctx.distinct(type_id, slot, 'live', label)
    for bad in (5, 'x', b'y', {'a': 1}, (1, 2, 3), object(), True,
                [[1, 2], b'', []], False, 0, '', b'', (), {}, 0.0):
        setattr(msg, slot, [bad] if is_list else bad)
        if isinstance(bad, list) and not is_list:
            continue
        ctx.raises(exceptions.FieldError,
                   lambda: shortcuts.dump(msg, None, None),
                   '%r dumped in slot %s' % (bad, slot), 'dump:class')
        ctx.event('live')
    setattr(msg, slot, None)
    if allow_none:
        wire = shortcuts.dump(msg, None, None)
        ctx.check([slot, [False, None]] in ref.Frame(wire).slots(),
                  'None on the wire', 'dump:none')
    else:
        ctx.raises(exceptions.FieldError,
                   lambda: shortcuts.dump(msg, None, None),
                   'None dumped in slot %s of %s' % (
                       slot, spec.TYPES[type_id].name), 'dump:none')
    # a single one for a list or the reverse
    for odd in ([good[0]] if is_list else [[good], [good, good], []]):
        setattr(msg, slot, odd)
        e = ctx.raises(exceptions.FieldError,
                       lambda: shortcuts.dump(msg, None, None),
                       'single for list or the reverse', 'dump:shape')
        ctx.eq(e.field, slot, 'field', 'dump:shape')
        ctx.event('shapes')
    if is_list:
        setattr(msg, slot, [])
        ctx.raises(exceptions.FieldError,
                   lambda: shortcuts.load(
                       shortcuts.dump(msg, None, None), None, None,
                       check_time=False), 'empty list', 'empty')
    setattr(msg, slot, good)
    again = shortcuts.load(shortcuts.dump(msg, None, None), None, None,
                           check_time=False)
    ctx.eq(gen.content(again), gen.content(msg), 'content afterwards', 'good')
    ctx.event('good')


# --- on the wire -----------------------------------------------------------

def spots(type_id, slots, path=()):
    """Every nested-message slot in decoded slots: (path to [slot, value]'s
    value, nested type, allow_none, is_list)."""
    t = spec.TYPES[type_id]
    for i, (slot, value) in enumerate(slots):
        if slot not in t.msgs:
            continue
        nested, allow_none, is_list = t.msgs[slot]
        here = path + (i, 1)
        yield here, nested, allow_none, is_list
        if value[1] is None:
            continue
        if is_list:
            for j, one in enumerate(value[1]):
                yield from spots(nested, one[2], here + (1, j, 2))
        else:
            yield from spots(nested, value[1][2], here + (1, 2))


def put(v, p, x):
    if not p:
        return x
    v = list(v)
    v[p[0]] = put(v[p[0]], p[1:], x)
    return v


def get(v, p):
    for k in p:
        v = v[k]
    return v


def wire(ctx):
    rng = ctx.rng
    type_id = HOLDERS[ctx.index % len(HOLDERS)]
    maker, msg = build(ctx, type_id,
                       rng.choice(sorted(spec.TYPES[type_id].msgs)))
    slots = ref.cbor_dec(ref.cbor_enc(gen.plain_slots(msg)))
    all_spots = list(spots(type_id, slots))
    for _ in range(6):
        path, nested, allow_none, is_list = rng.choice(all_spots)
        value = get(slots, path)
        good = value[1]
        if is_list:
            good = good[0]
        kind, bad = spoil(ctx, maker, nested, allow_none, is_list, good)
        if kind is None:
            continue
        damaged = put(slots, path, bad)
        payload = ref.cbor_enc(damaged)
        t = spec.TYPES[type_id]
        signed = t.sign and rng.random() < 0.5
        sig = ref.sign(maker.cast.provider.priv, ref.content_hash(
            type_id, msg.timestamp, payload)) if signed else ref.ZERO_SIG
        raw = ref.frame(type_id, msg.timestamp, False, sig, payload)
        label = '%s in %s%s' % (kind, t.name, list(path))
        e = ctx.raises(exceptions.MessageError, lambda: shortcuts.load(
            raw, None, maker.cast.provider.pub if signed else None,
            check_time=False), label, 'load:' + kind.split(' ')[0],
            bad=repr(bad))
        ctx.check(isinstance(e, exceptions.FieldError), 'kind: %r' % e,
                  'load:kind', label=label)
        ctx.event(kind.split(' ')[0])
        ctx.distinct(type_id, path, kind)
    ctx.sample((spec.TYPES[type_id].name, len(all_spots)))


def spoil(ctx, maker, nested, allow_none, is_list, good):
    rng = ctx.rng

    def pack(x):
        return [True, [x]] if is_list else [False, x]
    kind = rng.choice(['type', 'type', 'type', 'none', 'shape', 'shape',
                       'list', 'flag'])
    if kind == 'type':
        how = rng.randrange(3)
        other = rng.choice([t for t in TYPE_IDS if t != nested])
        if how == 0 and good is not None:
            # the same content under another type's header
            return 'type relabelled', pack(
                [[other] + list(good[0][1:])] + list(good[1:]))
        if how == 1 and good is not None:
            unknown = rng.choice([4, 999, 65535, 70000, -1, None, 'x',
                                  str(nested)])
            return 'type unknown', pack(
                [[unknown] + list(good[0][1:])] + list(good[1:]))
        wrong = ref.cbor_dec(ref.cbor_enc(gen.plain_nested(
            maker.make(other, nested=True))))
        return 'type %d' % other, pack(wrong)
    if kind == 'none':
        if allow_none:
            return None, None
        return 'none', rng.choice([[False, None], pack(None)])
    if kind == 'list':
        if is_list:
            return 'list empty', [True, []]
        return 'list for single', [True, [good] if good else []]
    if kind == 'flag':
        if good is None:
            return None, None
        mark = rng.choice([not is_list, not is_list, 'yes', 'True', 'False',
                           2, -1, 255, [1], [False], {'x': 1}, b'\1', 0.5])
        return 'flag', [mark, [good] if (mark if rng.random() < 0.3
                                         else is_list) else good]
    g = list(good) if good else [[nested, 1500000000, False], None, []]
    return 'shape', rng.choice([
        None, 5, 'x', [], [False], [False, g, g], {},
        pack(g[:2]), pack(g[:1]), pack(g + [None]), pack(5), pack('abc'),
        pack({}), pack([[], g[1], g[2]]), pack([g[0][:2], g[1], g[2]]),
        pack([list(g[0]) + [0], g[1], g[2]]), pack([None, g[1], g[2]]),
        pack([5, g[1], g[2]]),
        pack({'header': g[0], 'sig': g[1], 'slots': g[2]}),
        pack({0: g[0], 1: g[1], 2: g[2]}),
        pack([{'type_': g[0][0], 'timestamp': g[0][1],
               'encrypted': g[0][2]}, g[1], g[2]]),
        {'is_list': is_list, 'value': [g] if is_list else g}])


def loaded(ctx):
    """What does load has nested objects of exactly the declared classes with
    headers of exactly the declared types, at every depth."""
    rng = ctx.rng
    type_id = HOLDERS[ctx.index % len(HOLDERS)]
    maker, msg = build(ctx, type_id)
    wire_ = shortcuts.dump(msg, maker.cast.provider.priv,
                           rng.choice([None, maker.cast.requestor.pub]))
    got = shortcuts.load(wire_, maker.cast.requestor.priv,
                         maker.cast.provider.pub, check_time=False)
    n = check_tree(ctx, got, type_id)
    ctx.distinct(type_id, n)
    ctx.event('messages', n)


def check_tree(ctx, msg, type_id):
    ctx.check(type(msg) is gen.cls_of(type_id), 'class of a nested message',
              'tree', got=type(msg).__name__)
    ctx.eq(msg.header.type_, type_id, 'type in the header', 'tree')
    n = 1
    for slot, (nested, allow_none, is_list) in spec.TYPES[type_id].msgs.items():
        value = getattr(msg, slot)
        if value is None:
            ctx.check(allow_none, 'None in ' + slot, 'tree')
            continue
        ctx.eq(isinstance(value, list), is_list, 'list in ' + slot, 'tree')
        for one in value if is_list else [value]:
            n += check_tree(ctx, one, nested)
    return n


SCENARIOS = [
    Scenario('live', live, len(SLOTS) * 10, len(SLOTS) * 150, need={
        'live': 1500, 'good': 200, 'shapes': 100}),
    Scenario('wire', wire, 33 * 90, 33 * 1500, need={
        'type': 3000, 'none': 300, 'shape': 1500, 'list': 800, 'flag': 500}),
    Scenario('loaded', loaded, 33 * 10, 33 * 200, need={'messages': 600}),
    Scenario('crowd', crowd(wire, live), 32, 1200, need={
        'crowds': 16, 'switches': 20}, max_s=120),
]
