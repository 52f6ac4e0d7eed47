"""Field rules of messages: enums, structures, lists and their defaults."""
from golem_messages import exceptions, shortcuts
from golem_messages.datastructures import p2p as dt_p2p
from golem_messages.datastructures import tasks as dt_tasks
from golem_messages.message import tasks

from gm import gen, ref, spec
from gm.core import Scenario
from gm.crowd import crowd

PROPERTY = 'C29'
RULE = ('A case loads a frame assembled independently in which one guarded'
        ' field (enumerated reason or operation, node, list of peers or'
        ' tasks, number) holds a good, missing, None or wrong value, or'
        ' builds the message without it, and compares the outcome to the'
        ' protocol table. Distinct: (type, field, kind of value, verdict).')
ENUMS = [(t, s) for t in sorted(spec.TYPES) for s in spec.TYPES[t].enums]
NODES = sorted(spec.NODE_SLOTS)
LISTS = sorted(spec.LIST_DEFAULT)


def maker_for(ctx):
    return gen.Maker(ctx.rng, sign='all', anchor=True,
                     ts=ctx.rng.randint(1500000000, 1900000000))


def wire(msg, slot, value, absent=False):
    """The frame of msg with one slot replaced, made without the library."""
    slots = [[n, v] for n, v in gen.plain_slots(msg)]
    if absent:
        slots = [p for p in slots if p[0] != slot]
    else:
        slots = [[n, value if n == slot else v] for n, v in slots]
    type_id = gen.type_id_of(msg)
    return ref.frame(type_id, msg.timestamp, False, ref.ZERO_SIG,
                     ref.cbor_enc(slots), '2.24.3')


def load(data):
    return shortcuts.load(data, None, None, check_time=False)


def enums(ctx):
    rng = ctx.rng
    type_id, slot = ENUMS[ctx.index % len(ENUMS)]
    table = spec.TYPES[type_id].enums[slot]
    cls = gen.enum_class(type_id, slot)
    maker = maker_for(ctx)
    if type_id == 2011:
        # whatever reason, the rejection has to make sense
        msg = maker.make(type_id, reason=cls['VerificationNegative'])
    else:
        msg = maker.make(type_id)
    for name, value in sorted(table.items()):
        member = cls[name]
        setattr(msg, slot, member)
        frame = ref.Frame(shortcuts.dump(msg, None, None))
        ctx.eq(dict(map(tuple, frame.slots()))[slot], value,
               '%s.%s on the wire' % (slot, name), 'enum:dumped')
        msg.sig = None
        try:
            back = load(wire(msg, slot, value))
        except exceptions.ValidationError:
            ctx.check(type_id == 2011, 'member refused', 'enum:refused')
            continue
        ctx.check(getattr(back, slot) is member, 'loaded as %r' % (
            getattr(back, slot),), 'enum:loaded')
        ctx.event('member')
    good = rng.choice(sorted(table.values()))
    name = rng.choice(sorted(table))
    odd = rng.choice([
        '', good.upper() + '_', good + ' ', ' ' + good, good[:-1], 0, 1, True,
        False, 1.5, good.encode(), [good], {good: good}, [], {}, 'REASON.' +
        name, name.swapcase(), 'Unknown', gen.text(rng)])
    if rng.random() < 0.4:
        # a member's name is not its value
        odd = rng.choice([name, name.lower(), name.upper(), ' '.join(name)])
    if isinstance(odd, str) and odd in table.values():
        odd += '?'
    e = ctx.raises(exceptions.FieldError,
                   lambda: load(wire(msg, slot, odd)),
                   '%s=%r loaded' % (slot, odd), 'enum:accepted')
    ctx.eq((e.field, e.value), (slot, odd), 'what is wrong', 'enum:blame')
    ctx.event('refused')
    for absent in (False, True):
        data = wire(msg, slot, None, absent)
        if type_id == 2011:
            ctx.raises(exceptions.ValidationError, lambda: load(data),
                       'no reason', 'enum:none')
            continue
        got = getattr(load(data), slot)
        if type_id == 2015:
            ctx.check(got is cls['ComputationError'], 'default %r' % got,
                      'enum:default')
        else:
            ctx.check(got is None, 'None became %r' % (got,), 'enum:none')
    ctx.event('none')
    ctx.distinct(type_id, slot, repr(odd))
    ctx.sample((type_id, slot, odd))


WRONG_PORTS = [0, -1, 65536, 10**9, '40102', 1.5, True, False, b'1', [1]]


def bad_node(rng):
    """(what is wrong, wire value)"""
    fields = gen.plain_value(gen.node(rng))
    kind = rng.randrange(6)
    if kind == 0:
        value = rng.choice([5, 'node', [1], [['node_name', 'x']], b'x', True,
                            1.5])
        return None, value
    if kind == 1:
        slot = rng.choice(['prv_port', 'pub_port', 'p2p_prv_port',
                           'p2p_pub_port'])
        value = rng.choice(WRONG_PORTS)
    elif kind == 2:
        slot = rng.choice(['prv_addr', 'pub_addr'])
        value = rng.choice(['', 'localhost', '1.2.3', '1.2.3.256', '::g',
                            '1.2.3.4 '])
    elif kind == 3:
        slot, value = 'key', rng.choice(['k' * 129, 5, b'k' * 64, ['k']])
    elif kind == 4:
        slot, value = 'node_name', rng.choice([5, b'n', ['n'], True])
    else:
        slot, value = 'more', rng.choice([None, 1, 'x'])
    fields[slot] = value
    return slot, fields


def nodes(ctx):
    rng = ctx.rng
    type_id, slot = NODES[ctx.index % len(NODES)]
    maker = maker_for(ctx)
    msg = maker.make(type_id)
    node = gen.node(rng)
    back = load(wire(msg, slot, gen.plain_value(node)))
    ctx.check(type(getattr(back, slot)) is dt_p2p.Node, 'type', 'node:type')
    ctx.eq(gen.canon(getattr(back, slot)), gen.canon(node), 'node',
           'node:loaded')
    setattr(msg, slot, node)
    frame = ref.Frame(shortcuts.dump(msg, None, None))
    ctx.eq(dict(map(tuple, frame.slots()))[slot], gen.plain_value(node),
           'node on the wire', 'node:dumped')
    msg.sig = None
    ctx.event('good')
    field, value = bad_node(rng)
    e = ctx.raises(exceptions.FieldError,
                   lambda: load(wire(msg, slot, value)),
                   '%s=%r loaded' % (slot, value), 'node:accepted')
    ctx.eq(e.field, field or slot, 'what is wrong', 'node:blame')
    ctx.event('refused')
    for absent in (False, True):
        back = load(wire(msg, slot, None, absent))
        ctx.check(getattr(back, slot) is None, 'no node', 'node:none')
    # what is not a node can't be sent as one
    odd = rng.choice([5, 'node', [1], object(), {'node_name': 'x'}])
    setattr(msg, slot, odd)
    ctx.raises(exceptions.FieldError, lambda: shortcuts.dump(msg, None, None),
               '%s=%r dumped' % (slot, odd), 'node:dumped')
    ctx.distinct(type_id, slot, field, repr(value)[:80])
    ctx.sample((type_id, slot, field, value))


def lists(ctx):
    """Lists are never None; peers and tasks are lists of theirs."""
    rng = ctx.rng
    type_id, slot = LISTS[ctx.index % len(LISTS)]
    cls = gen.cls_of(type_id)
    for given in ({}, {slot: None}, {slot: []}):
        value = getattr(cls(**given), slot)
        ctx.check(isinstance(value, list) and value == [],
                  '%s(%r): %r' % (cls.__name__, given, value), 'list:default')
    one, two = cls(), cls()
    getattr(one, slot).append(1)
    ctx.eq(getattr(two, slot), [], 'default list is shared', 'list:shared')
    ctx.eq(getattr(cls(), slot), [], 'default list is shared', 'list:shared')
    maker = maker_for(ctx)
    msg = maker.make(type_id)
    back = load(wire(msg, slot, gen.plain_value(getattr(msg, slot))))
    ctx.eq(gen.canon(getattr(back, slot)), gen.canon(getattr(msg, slot)),
           'list loaded', 'list:loaded')
    kind = {1004: dt_p2p.Peer, 1006: dt_tasks.TaskHeader}.get(type_id)
    if kind:
        ctx.check(all(type(x) is kind for x in getattr(back, slot)),
                  'types of items', 'list:loaded')
        odd = rng.choice([None, 5, 'text', {}, b'x', True, {'a': 1}])
        e = ctx.raises(exceptions.FieldError,
                       lambda: load(wire(msg, slot, odd)),
                       '%s=%r loaded' % (slot, odd), 'list:accepted')
        ctx.eq(e.field, slot, 'what is wrong', 'list:blame')
        good = gen.plain_value(maker.make(type_id, **{slot: [
            gen.peer(rng) if type_id == 1004 else gen.task_header(rng)]}
        ).__getattribute__(slot))
        bad = dict(good[0])
        if type_id == 1004:
            key, value = rng.choice([
                ('port', 0), ('port', 65536), ('port', True), ('port', '1'),
                ('port', None), ('address', 'nowhere'), ('address', '1.2.3'),
                ('address', ''), ('node', None), ('node', 5),
                ('node', 'node')])
            bad[key] = value
        else:
            key, value = rng.choice([
                ('subtasks_count', 0), ('subtasks_count', -1),
                ('subtasks_count', None), ('deadline', '5'),
                ('task_id', 'x' * 129), ('task_id', 5), ('task_id', None),
                ('min_version', 'one'), ('timestamp', 1.5),
                ('concent_enabled', 1), ('max_price', True),
                ('market_type', 'Steel'),
                ('task_owner', None)])
            bad[key] = value
            if rng.random() < 0.2:
                bad = rng.choice([5, 'x', None, [1], []])
        if type_id == 1004 and rng.random() < 0.3:
            bad = rng.choice([None, 5, 0, True, False, 'peer', b'peer', 1.5])
        items = [good[0], bad] if rng.random() < 0.5 else [bad]
        ctx.raises(exceptions.MessageError,
                   lambda: load(wire(msg, slot, items)),
                   '%r loaded' % (bad,), 'list:item accepted')
        ctx.event('refused')
        ctx.distinct(type_id, repr(odd), key, repr(value))
    else:
        back = load(wire(msg, slot, None))
        ctx.eq(getattr(back, slot), [], 'None loaded', 'list:default')
        ctx.distinct(type_id, len(getattr(msg, slot)))
    back = load(wire(msg, slot, None, absent=True))
    ctx.eq(getattr(back, slot), [], 'absent', 'list:default')
    ctx.event('good')


def offer(ctx):
    """WantToComputeTask's numbers."""
    rng = ctx.rng
    maker = maker_for(ctx)
    msg = maker.make(2001)
    slot = rng.choice(['cpu_usage', 'num_subtasks', 'concent_enabled',
                       'task_header'])
    if slot == 'task_header':
        odd = rng.choice([5, 'x', [1], {}, {'task_id': 'x'}, True])
        ctx.raises(exceptions.MessageError,
                   lambda: load(wire(msg, slot, odd)),
                   'task_header=%r loaded' % (odd,), 'offer:accepted')
        ctx.event('refused')
        value, verdict = odd, False
    elif slot == 'concent_enabled':
        value = rng.choice([None, True, False, 0, 1, '', 'x', [], 2.5])
        back = load(wire(msg, slot, value))
        ctx.check(back.concent_enabled is bool(value), '%r became %r' % (
            value, back.concent_enabled), 'offer:concent')
        new = tasks.WantToComputeTask(concent_enabled=value)
        ctx.check(new.concent_enabled is bool(value), '%r became %r' % (
            value, new.concent_enabled), 'offer:concent')
        verdict = True
        ctx.event('good')
    else:
        least = 0 if slot == 'cpu_usage' else 1
        value = rng.choice([0, 1, -1, 2, -2**64, 2**64, 2**70, None, True,
                            False, '1', 1.0, b'1', [1], {}, gen.integer(rng)])
        verdict = value is None and slot == 'cpu_usage' or (
            type(value) is int and value >= least)
        data = wire(msg, slot, value)
        if verdict:
            ctx.eq(gen.canon(getattr(load(data), slot)), gen.canon(value),
                   slot, 'offer:loaded')
            ctx.event('good')
        else:
            e = ctx.raises(exceptions.FieldError, lambda: load(data),
                           '%s=%r loaded' % (slot, value), 'offer:accepted')
            ctx.eq(e.field, slot, 'what is wrong', 'offer:blame')
            ctx.event('refused')
        back = load(wire(msg, slot, None, absent=True))
        ctx.eq(getattr(back, slot), None if slot == 'cpu_usage' else 1,
               'default of ' + slot, 'offer:default')
    ctx.eq(tasks.WantToComputeTask().num_subtasks, 1, 'default',
           'offer:default')
    ctx.distinct(slot, repr(value), verdict)


def assignment(ctx):
    """ComputeTaskDef: own fields only."""
    rng = ctx.rng
    cls = tasks.ComputeTaskDef
    fields = {f: None for f in spec.CTD_FIELDS}
    ctx.eq(sorted(cls()), sorted(fields), 'fields', 'ctd:fields')
    value = rng.choice(['', 'x', 'y' * 127, 'ż' * 128, 'z' * 129, 'ż' * 129, 5,
                        b'x', ['x'], True, None])
    name = rng.choice(['task_id', 'subtask_id'])
    good = isinstance(value, str) and len(value) <= 128
    if good:
        ctx.eq(cls({name: value})[name], value, name, 'ctd:refused')
        ctx.event('good')
    else:
        e = ctx.raises(exceptions.FieldError, lambda: cls({name: value}),
                       '%s=%r' % (name, value), 'ctd:accepted')
        ctx.eq((e.field, e.value), (name, value), 'blame', 'ctd:blame')
        ctx.event('refused')
    key = rng.choice(['Task_id', 'src_code', '', 'taskid', 5])
    ctx.raises(KeyError, lambda: cls({key: 1}), 'field %r' % (key,),
               'ctd:unknown')
    ctx.distinct(name, repr(value))


SCENARIOS = [
    Scenario('enums', enums, 280, 10000, need={'refused': 280, 'member': 500,
                                               'none': 280}),
    Scenario('nodes', nodes, 250, 10000, need={'good': 250, 'refused': 250}),
    Scenario('lists', lists, 240, 10000, need={'good': 240, 'refused': 100}),
    Scenario('offer', offer, 300, 10000, need={'good': 60, 'refused': 60}),
    Scenario('assignment', assignment, 160, 3000, need={'good': 30,
                                                        'refused': 40}),
    Scenario('crowd', crowd(enums, nodes, lists, offer), 32, 1200, need={
        'crowds': 16, 'switches': 20}, max_s=120),
]
