"""Containers hold exactly what their table of fields allows."""
import enum

from golem_messages import datastructures, exceptions
from golem_messages.datastructures import masking, p2p, stats
from golem_messages.datastructures import tasks as dt_tasks

from gm import gen, ref, spec
from gm.core import Scenario
from gm.crowd import crowd

PROPERTY = 'C21'
RULE = ('A case builds a Node, TaskHeader, Peer or statistics container from'
        ' generated fields, none or one of which is made wrong (bad value,'
        ' missing, None, unknown), and compares acceptance, attributes,'
        ' to_dict and reconstruction to an own table of the fields.'
        ' Distinct: (container, field, kind of value, verdict).')

# --- kinds of values -------------------------------------------------------

NOT_INT = ['1', 1.0, True, False, [], {}, b'1', '']
NOT_STR = [1, b'abc', [], {}, 1.5, True]
NOT_DICT = [[], 'x', 1, [('a', 1)], b'', (), 0, False, '']

VERSIONS = ['0.0.0', '1.2.3', '10.20.30', '2.24.3-rc.1', '1.0.0+build.5',
            '1.0.0-a.b.c+d', '0.0.1-0']
NOT_VERSIONS = ['', '1', '1.2', '1.2.3.4', 'v1.2.3', '01.2.3', '1.2.3-',
                'a.b.c', '1.2.x', ' 1.2.3', '1.2.3\n', 5, b'1.2.3', [], 1.2]
IPS = ['1.2.3.4', '0.0.0.0', '255.255.255.255', '::', '::1',
       'fe80::1', '2001:db8::ff', '::ffff:1.2.3.4']
NOT_IPS = ['', '1.2.3', '256.1.1.1', '1.2.3.4.5', 'localhost', ':::', '1.2.3.'
           '4/8', ' 1.2.3.4', 'g::1', [], {}, 1.5, '1.2.3.4:80']


def good(kind, rng):
    if kind == 'bytes':
        return rng.choice([b'', b'\0' * 32, b'\xff' * 65, b'x'])
    if kind == 'mask':
        return rng.getrandbits(256).to_bytes(32, 'big')
    if kind == 'int':
        return gen.integer(rng)
    if kind == 'nonneg':
        return rng.choice([0, 1, 2**64, rng.getrandbits(30)])
    if kind == 'positive':
        return rng.choice([1, 2, 2**64, 1 + rng.getrandbits(30)])
    if kind == 'varchar128':
        return rng.choice(['', 'a' * 128, '漢' * 128, 'a' * 127,
                           gen.text(rng, 128)])
    if kind == 'varchar':
        return rng.choice(['', 'a' * 10000, gen.text(rng, 128)])
    if kind == 'port':
        return rng.choice([1, 2, 80, 65534, 65535, rng.randint(1, 65535)])
    if kind == 'ip':
        return rng.choice(IPS)
    if kind == 'bool':
        return rng.random() < 0.5
    if kind == 'version':
        return rng.choice(VERSIONS)
    if kind == 'dict':
        return gen.mapping(rng, 1)
    if kind == 'node':
        return gen.node_fields(rng) if rng.random() < 0.5 else gen.node(rng)
    if kind == 'market':
        return rng.choice(['Brass', 'Usage']
                          + list(dt_tasks.TaskHeader.MARKET_TYPE))
    if kind == 'entry':
        return {'major': 1, 'minor': gen.integer(rng), 'op': 'Read',
                'value': 2} if rng.random() < 0.8 else {}
    if kind == 'frozen entry':
        return stats.BlockIoEntry(major=gen.integer(rng))
    if kind == 'cpu_usage':
        return rng.choice([{}, {'total_usage': gen.integer(rng)}, {
            'percpu_usage': [1, 2], 'total_usage': 3,
            'usage_in_kernelmode': 0, 'usage_in_usermode': 2**70}])
    if kind == 'throttling':
        return rng.choice([{}, {'periods': gen.integer(rng)}, {
            'periods': 1, 'throttled_periods': 2, 'throttled_time': 2**70}])
    if kind in STATS:
        if rng.random() < 0.15:
            return {}
        fields = {f: good(k, rng) for f, k in STATS[kind][1].items()
                  if rng.random() < 0.6}
        return fields if rng.random() < 0.6 else STATS[kind][0](**fields)
    return gen.freeform(rng)       # any


def bad(kind, rng):
    """(value) that is not a `kind`; None never is one of them."""
    return rng.choice({
        'bytes': ['abc', 1, [], {}, True, 'x' * 65],
        'mask': ['abc', 1, [], {}, True],
        'int': NOT_INT, 'nonneg': NOT_INT + [-1, -2**70, -1],
        'positive': NOT_INT + [0, 0, -1, -2**70],
        'varchar128': NOT_STR + ['a' * 129, '漢' * 129, 'a' * 10000],
        'varchar': NOT_STR,
        'port': NOT_INT + [0, -1, 65536, 2**31, 2**64, 0, 65536],
        'ip': NOT_IPS, 'bool': [0, 1, '', 'True', [], 'false', b''],
        'version': NOT_VERSIONS, 'dict': NOT_DICT,
        'node': ['x', 1, [], True, [('key', 'x')]],
        'market': ['brass', '', 'Bras', 1, 'BRASS', 0, False, [], b'Brass'],
        'entry': NOT_DICT, 'frozen entry': NOT_DICT,
        'cpu_usage': NOT_DICT, 'throttling': NOT_DICT,
        'blkio': NOT_DICT, 'cpu': NOT_DICT, 'memory': NOT_DICT,
        'pids': NOT_DICT}[kind])


def wire(kind, value, given=True):
    """What to_dict has to give."""
    if value is None or not given:
        return None
    if kind == 'node':
        if isinstance(value, p2p.Node):
            return {f: gen.plain_value(getattr(value, f))
                    for f in spec.NODE_FIELDS}
        return {f: wire(NODE[f], value.get(f), f in value)
                if f in value else default('Node', f)
                for f in spec.NODE_FIELDS}
    if kind == 'market':
        return getattr(value, 'value', value)
    if kind == 'cpu_usage':
        return dict({'percpu_usage': [], 'total_usage': 0,
                     'usage_in_kernelmode': 0, 'usage_in_usermode': 0},
                    **value) if value else None
    if kind == 'throttling':
        return dict({'periods': 0, 'throttled_periods': 0,
                     'throttled_time': 0}, **value) if value else None
    if kind in STATS:
        cls, fields = STATS[kind]
        if isinstance(value, cls):
            return {f: wire(k, getattr(value, f)) for f, k in fields.items()}
        return {f: wire(k, value.get(f)) for f, k in fields.items()} \
            if value else None
    return value


NODE = {
    'node_name': 'varchar', 'key': 'varchar128', 'prv_port': 'port',
    'pub_port': 'port', 'p2p_prv_port': 'port', 'p2p_pub_port': 'port',
    'prv_addr': 'ip', 'pub_addr': 'ip', 'prv_addresses': 'any',
    'hyperdrive_prv_port': 'int', 'hyperdrive_pub_port': 'int',
    'port_statuses': 'any', 'nat_type': 'any'}
HEADER = {
    'mask': 'mask', 'timestamp': 'int', 'signature': 'bytes',
    'task_id': 'varchar128', 'task_owner': 'node', 'deadline': 'int',
    'subtask_timeout': 'nonneg', 'market_type': 'market',
    'environment': 'varchar128', 'environment_prerequisites': 'dict',
    'min_version': 'version', 'estimated_memory': 'int', 'max_price': 'int',
    'subtask_budget': 'int', 'subtasks_count': 'positive',
    'concent_enabled': 'bool'}
BLKIO = {f: 'entry' for f in (
    'io_merged_recursive', 'io_queue_recursive', 'io_service_bytes_recursive',
    'io_service_time_recursive', 'io_serviced_recursive', 'io_time_recursive',
    'io_wait_time_recursive', 'sectors_recursive')}
CPU = {'cpu_usage': 'cpu_usage', 'throttling_data': 'throttling'}
MEMORY = {'kernel_tcp_usage': 'entry', 'kernel_usage': 'entry',
          'swap_usage': 'entry', 'usage': 'entry', 'cache': 'int',
          'stats': 'dict', 'use_hierarchy': 'bool'}
PIDS = {'current': 'int', 'limit': 'int'}
PROVIDER = {'blkio_stats': 'blkio', 'cpu_stats': 'cpu',
            'memory_stats': 'memory', 'pids_stats': 'pids'}
STATS = {'blkio': (stats.BlockIoStats, BLKIO), 'cpu': (stats.CpuStats, CPU),
         'memory': (stats.MemoryStats, MEMORY), 'pids': (stats.PidStats,
                                                         PIDS)}
CONTAINERS = [
    (p2p.Node, NODE, ()),
    (dt_tasks.TaskHeader, HEADER, ('task_id', 'task_owner', 'subtasks_count',
                                   'min_version', 'timestamp')),
    (stats.BlockIoStats, BLKIO, ()), (stats.CpuStats, CPU, ()),
    (stats.MemoryStats, MEMORY, ()), (stats.PidStats, PIDS, ()),
    (stats.ProviderStats, PROVIDER, ()),
]


def default(name, field):
    return {('Node', 'prv_addresses'): [], ('Node', 'port_statuses'): {},
            ('Node', 'nat_type'): []}.get((name, field))


def fields_for(rng, table, required, p=0.7):
    out = {}
    for f, kind in table.items():
        if f in required or rng.random() < p:
            out[f] = good(kind, rng)
            if f not in required and rng.random() < 0.15:
                out[f] = None
    return out


def expected(cls, table, fields):
    return {f: wire(kind, fields[f]) if f in fields
            else default(cls.__name__, f) for f, kind in table.items()}


def build(cls, fields):
    return cls(**fields)


def accepted(ctx):
    rng = ctx.rng
    cls, table, required = CONTAINERS[ctx.index % len(CONTAINERS)]
    fields = fields_for(rng, table, required)
    names = list(fields)
    rng.shuffle(names)
    obj = cls(**{f: fields[f] for f in names})
    want = expected(cls, table, fields)
    got = obj.to_dict()
    ctx.eq(list(got), list(want), 'names of %s' % cls.__name__,
           'to_dict:names')
    for f in want:
        ctx.check(gen.canon(got[f]) == gen.canon(want[f])
                  or kind_equal(got[f], want[f]),
                  '%s.%s: %r, should be %r' % (cls.__name__, f, got[f],
                                               want[f]), 'to_dict:' + f)
    attribute_types(ctx, cls, obj, fields, table)
    # what goes out comes back
    flat = ref.cbor_dec(ref.cbor_enc(got))
    ctx.eq(gen.canon(flat), gen.canon(ref.cbor_dec(ref.cbor_enc(want))),
           'wire form', 'to_dict:wire')
    again = cls(**ref.cbor_dec(ref.cbor_enc(got)))
    ctx.eq(gen.canon(ref.cbor_dec(ref.cbor_enc(again.to_dict()))),
           gen.canon(flat),
           '%s rebuilt from to_dict' % cls.__name__, 'rebuild')
    repr(obj)
    # minimal
    least = cls(**{f: fields[f] for f in required})
    for f in table:
        if f not in required:
            ctx.eq(getattr(least, f), default(cls.__name__, f),
                   'default of %s.%s' % (cls.__name__, f), 'default')
    if cls is p2p.Node:
        least.prv_addresses.append('1.2.3.4')
        least.port_statuses['a'] = 1
        least.nat_type.append('b')
        fresh = cls()
        ctx.eq((fresh.prv_addresses, fresh.port_statuses, fresh.nat_type),
               ([], {}, []), 'defaults are shared', 'default:shared')
    ctx.event('accepted')
    ctx.distinct(cls.__name__, tuple(sorted(fields)))
    ctx.sample((cls.__name__, {f: repr(v)[:40] for f, v in fields.items()}))


def kind_equal(a, b):
    """The wire does not tell dicts or tuples of different kinds apart."""
    def flat(v):
        return gen.canon(ref.cbor_dec(ref.cbor_enc(gen.plain_value(v))))
    return flat(a) == flat(b)


def attribute_types(ctx, cls, obj, fields, table):
    for f, value in fields.items():
        got = getattr(obj, f)
        kind = table[f]
        if value is None:
            ctx.check(got is None, '%s is %r' % (f, got), 'attr:' + f)
        elif kind == 'mask':
            ctx.check(isinstance(got, masking.Mask)
                      and got.to_bytes() == value, 'mask', 'attr:mask')
        elif kind == 'node':
            ctx.check(isinstance(got, p2p.Node), 'task_owner', 'attr:node')
            if isinstance(value, p2p.Node):
                ctx.check(got is value, 'task_owner', 'attr:node')
        elif kind == 'market':
            ctx.check(isinstance(got, dt_tasks.TaskHeader.MARKET_TYPE),
                      'market_type is %r' % (got,), 'attr:market')
        elif kind in STATS:
            if isinstance(value, dict) and not value:
                ctx.check(got is None, '%s of {}: %r' % (f, got), 'attr:' + f)
            else:
                ctx.check(isinstance(got, STATS[kind][0]),
                          '%s is a %s' % (f, type(got)), 'attr:' + f)
        elif kind in ('cpu_usage', 'throttling'):
            if value:
                ctx.check(isinstance(got, {
                    'cpu_usage': stats.CpuUsage,
                    'throttling': stats.ThrottlingData}[kind]),
                    '%s is a %s' % (f, type(got)), 'attr:' + f)
        else:
            ctx.check(got is value or got == value, '%s is %r' % (f, got),
                      'attr:' + f)


def refused(ctx):
    rng = ctx.rng
    which = ctx.index % (len(CONTAINERS) + 3)
    cls, table, required = CONTAINERS[which] if which < len(CONTAINERS) \
        else CONTAINERS[1]
    fields = fields_for(rng, table, required)
    how = rng.choice(['bad'] * 8 + ['unknown', 'missing', 'none'])
    if how in ('missing', 'none') and not required:
        how = 'unknown'
    choices = [f for f, k in table.items() if k != 'any']
    if how == 'bad':
        name = rng.choice(choices)
        value = bad(table[name], rng)
        fields[name] = value
    elif how == 'unknown':
        name = rng.choice(['unknown', 'Key', '_x', 'to_dict', 'load_slots',
                           '__class__', 'task_idd', 'REQUIRED', 'sig'])
        value = fields[name] = rng.choice([None, 1])
    else:
        name = rng.choice(required)
        value = None
        if how == 'missing':
            del fields[name]
        else:
            fields[name] = None
    e = ctx.raises(exceptions.FieldError, lambda: build(cls, fields),
                   '%s with %s %s=%r' % (cls.__name__, how, name, value),
                   'refused:%s' % how)
    ctx.eq(e.field, name, 'error of %s=%r blames' % (name, value),
           'refused:field')
    str(e)
    ctx.event(how)
    ctx.distinct(cls.__name__, how, name, repr(value)[:40])


def nested(ctx):
    """Something wrong deep inside is an error, not dropped."""
    rng = ctx.rng
    if rng.random() < 0.5:
        inner = gen.node_fields(rng)
        name = rng.choice([f for f, k in NODE.items() if k != 'any'])
        if rng.random() < 0.2:
            name = 'unknown'
            inner[name] = 1
        else:
            inner[name] = bad(NODE[name], rng)
        fields = fields_for(rng, HEADER, ())
        fields.update(gen.task_header_fields(rng), task_owner=inner)
        e = ctx.raises(exceptions.FieldError,
                       lambda: build(dt_tasks.TaskHeader, fields),
                       'TaskHeader of an owner with a bad ' + name,
                       'nested:owner')
        ctx.eq(e.field, name, 'blames', 'nested:field')
    else:
        part = rng.choice(sorted(PROVIDER))
        kind = PROVIDER[part]
        table = STATS[kind][1]
        name = rng.choice(sorted(table))
        value = bad(table[name], rng)
        inner = {name: value}
        if rng.random() < 0.2:
            name = 'unknown'
            inner = {name: 1}
        e = ctx.raises(exceptions.FieldError,
                       lambda: build(stats.ProviderStats, {part: inner}),
                       'ProviderStats with bad %s.%s=%r' % (part, name,
                                                            value),
                       'nested:stats')
        ctx.eq(e.field, name, 'blames', 'nested:field')
    ctx.event('refused')
    ctx.distinct(name)


def frozen_inside(ctx):
    """The statistics' innermost mappings know their keys."""
    rng = ctx.rng
    part = rng.choice(['cpu_usage', 'throttling_data'])
    value = good({'cpu_usage': 'cpu_usage',
                  'throttling_data': 'throttling'}[part], rng)
    value = dict(value, extra=1)
    ctx.raises(exceptions.MessageError,
               lambda: build(stats.CpuStats, {part: value}),
               '%s with an unknown key' % part, 'frozen')
    ctx.event('refused')
    ctx.distinct(part)


# --- Node ------------------------------------------------------------------

def node(ctx):
    rng = ctx.rng
    fields = gen.node_fields(rng)
    a, b = p2p.Node(**fields), p2p.Node(**fields)
    ctx.check(a == b and not (a != b), 'equal nodes differ', 'node:eq')
    pairs = [('pub_addr', 'prv_addr'), ('pub_port', 'prv_port'),
             ('p2p_pub_port', 'p2p_prv_port'),
             ('hyperdrive_pub_port', 'hyperdrive_prv_port')]
    want = a.to_dict()
    for public, private in pairs:
        if want[public] is None:
            want[public] = want[private]
    ctx.eq(a.is_super_node(), a.pub_addr is not None
           and a.prv_addr is not None and a.pub_addr == a.prv_addr,
           'is_super_node', 'node:super')
    a.update_public_info()
    ctx.eq(a.to_dict(), want, 'update_public_info', 'node:public')
    ctx.eq(a.is_super_node(), a.pub_addr is not None
           and a.prv_addr is not None and a.pub_addr == a.prv_addr,
           'is_super_node', 'node:super')
    a.update_public_info()
    ctx.eq(a.to_dict(), want, 'update_public_info twice', 'node:public')
    if rng.random() < 0.4:
        b.prv_addr, b.pub_addr = '1.2.3.4', rng.choice(
            ['1.2.3.4', '1.2.3.5', None])
        ctx.eq(b.is_super_node(), b.pub_addr == '1.2.3.4', 'is_super_node',
               'node:super')
    # any one field makes a difference
    name = spec.NODE_FIELDS[ctx.index % len(spec.NODE_FIELDS)]
    c, d = p2p.Node(**fields), p2p.Node(**fields)
    setattr(d, name, {'prv_addresses': ['9.9.9.9'] * 5,
                      'port_statuses': {'q': 'q'},
                      'nat_type': ['other']}.get(name, 'different'))
    ctx.check(c != d and not (c == d), '%s does not count' % name, 'node:eq')
    ctx.event('node')
    ctx.distinct(name, tuple(sorted(fields)))


# --- Peer ------------------------------------------------------------------

def peer(ctx):
    rng = ctx.rng
    fields = {'address': good('ip', rng), 'port': good('port', rng),
              'node': good('node', rng)}
    pairs = list(fields.items())
    rng.shuffle(pairs)
    how = rng.choice(['ok', 'ok', 'bad', 'missing', 'none', 'unknown'])
    name = rng.choice(sorted(fields))
    if how == 'ok':
        p = p2p.Peer(rng.choice([pairs, dict(pairs)])) \
            if rng.random() < 0.7 else p2p.Peer(**dict(pairs))
        ctx.check(isinstance(p['node'], p2p.Node)
                  and p['address'] == fields['address']
                  and p['port'] == fields['port'], 'content', 'peer:content')
        want = {'address': fields['address'], 'port': fields['port'],
                'node': wire('node', fields['node'])}
        got = p.serialize()
        ctx.eq(gen.canon(dict(got)), gen.canon(want), 'serialize',
               'peer:serialize')
        ctx.check(isinstance(p['node'], p2p.Node),
                  'serialize() changed the peer', 'peer:serialize')
        again = p2p.Peer(got).serialize()
        ctx.eq(gen.canon(again), gen.canon(want), 'rebuilt', 'peer:rebuild')
        # later assignment is guarded likewise
        value = bad({'address': 'ip', 'port': 'port', 'node': 'node'}[name],
                    rng)
        ctx.raises(exceptions.FieldError, lambda: p.__setitem__(name, value),
                   'peer[%r] = %r' % (name, value), 'peer:assigned')
        ctx.eq(gen.canon(p.serialize()), gen.canon(want),
               'refused assignment took effect', 'peer:assigned')
        ctx.event('accepted')
    elif how == 'unknown':
        ctx.raises(KeyError, lambda: p2p.Peer(pairs + [('extra', 1)]),
                   'unknown key', 'peer:unknown')
        ctx.event('refused')
    else:
        if how == 'missing':
            del fields[name]
        else:
            fields[name] = None if how == 'none' else bad(
                {'address': 'ip', 'port': 'port', 'node': 'node'}[name], rng)
        e = ctx.raises(exceptions.FieldError, lambda: p2p.Peer(fields),
                       'Peer with %s %s=%r' % (how, name, fields.get(name)),
                       'peer:refused')
        ctx.eq(e.field, name, 'blames', 'peer:field')
        ctx.event('refused')
    ctx.distinct(how, name, repr(fields.get(name))[:40])


class Tint(enum.Enum):
    red = 'r'
    blue = 7


def made_up(ctx):
    """A container declared on the spot, by the rules of its base."""
    rng = ctx.rng
    asked = []      # (rules may be asked more than once)

    def rule(n, bad):
        def check(field_name, value):
            asked.append((n, field_name, value))
            if value in bad:
                raise exceptions.FieldError('no', field=field_name,
                                            value=value)
            if value == 'crash':
                raise ValueError('crash')
        return check

    names = ['f%d' % i for i in range(rng.choice([1, 2, 4, 7]))]
    rng.shuffle(names)
    rules = {f: [(n, rng.sample(['x', 'y', 0, 5, ''], 2))
                 for n in range(rng.choice([0, 1, 1, 2, 3]))] for f in names}
    required = frozenset(f for f in names if rng.random() < 0.3)
    kinds = {f: rng.choice([list, dict, lambda: 'd', lambda: 0])
             for f in names if rng.random() < 0.4}
    body = {
        '__slots__': {f: tuple(rule((f, n), bad) for n, bad in rs)
                      for f, rs in rules.items()},
        'REQUIRED': required, 'DEFAULTS': kinds}
    hooked = {f for f in names if rng.random() < 0.3}
    for f in hooked:
        body['serialize_' + f] = classmethod(
            lambda cls, value: ('out', value))
        body['deserialize_' + f] = classmethod(
            lambda cls, value: ('in', value))
    cls = type('MadeUp', (datastructures.Container,), body)
    for _ in range(6):
        del asked[:]
        given = {f: rng.choice(['a', 'b', 1, 2, None, None, '', 0, False, 'x',
                                'y', 5, [], {}, Tint.red, Tint.blue])
                 for f in names if rng.random() < 0.8}
        if rng.random() < 0.1 and given:
            given[rng.choice(sorted(given))] = 'crash'
        if rng.random() < 0.15:
            given[rng.choice(['g0', 'F0', 'to_dict', '_', 'slots'])] = 1
        want_asked, want, fault = [], {}, None
        for f in names:
            if f not in given:
                if f in required:
                    fault = f, None
                    break
                want[f] = kinds[f]() if f in kinds else None
                continue
            v = given[f]
            if v is None and f not in required:
                want[f] = None
                continue
            for n, bad in rules[f]:
                want_asked.append(((f, n), f, v))
                if v in bad:
                    fault = f, v
                elif v == 'crash':
                    fault = None, 'crash'
                if fault:
                    break
            if fault:
                break
            want[f] = ('in', v) if f in hooked else v
        odd = [f for f in given if f not in names]
        if odd and not fault:
            fault = odd[0], given[odd[0]]
        elif odd:
            fault = None, None      # either may be blamed
        names_given = list(given)
        rng.shuffle(names_given)
        call = {f: given[f] for f in names_given}
        if fault:
            e = ctx.raises(exceptions.MessageError, lambda: cls(**call),
                           'made of %r' % (given,), 'made_up:refused')
            if fault[0] is not None:
                ctx.check(isinstance(e, exceptions.FieldError)
                          and e.field == fault[0]
                          and exact(e.value) == exact(fault[1]),
                          'refused as %r, at fault: %r' % (e, fault),
                          'made_up:blame')
            ctx.event('refused')
        else:
            obj, twin = cls(**call), cls(**call)
            for f in names:
                ctx.eq(exact(getattr(obj, f)), exact(want[f]), f,
                       'made_up:attribute')
                if f not in given and f in kinds and isinstance(
                        want[f], (list, dict)):
                    ctx.check(getattr(obj, f) is not getattr(twin, f),
                              'default is shared', 'made_up:default')
            picture = obj.to_dict()
            out = {f: v.value if isinstance(v, enum.Enum) else v
                   for f, v in want.items()}
            out = {f: ('out', v) if f in hooked else v
                   for f, v in out.items()}
            ctx.eq(exact(picture), exact(out), 'to_dict', 'made_up:to_dict')
            ctx.event('accepted')
            ctx.eq(sorted(map(repr, set(map(repr, asked)))),
                   sorted(map(repr, set(map(repr, want_asked * 2)))),
                   'rules asked', 'made_up:rules')
    ctx.distinct(len(names), len(required), len(kinds), len(hooked))


def exact(v):
    if isinstance(v, dict):
        return [(k, exact(x)) for k, x in v.items()]
    if isinstance(v, tuple):
        return tuple(exact(x) for x in v)
    return (type(v).__name__, repr(v))


SCENARIOS = [
    Scenario('made_up', made_up, 300, 12000, need={
        'refused': 300, 'accepted': 300}),
    Scenario('accepted', accepted, 1050, 40000, need={'accepted': 1000}),
    Scenario('refused', refused, 3000, 60000, need={
        'bad': 2000, 'unknown': 200, 'missing': 30, 'none': 30}),
    Scenario('nested', nested, 400, 8000, need={'refused': 400}),
    Scenario('frozen_inside', frozen_inside, 30, 300, need={'refused': 30}),
    Scenario('node', node, 260, 8000, need={'node': 260}),
    Scenario('peer', peer, 400, 12000, need={
        'accepted': 80, 'refused': 150}),
    Scenario('crowd', crowd(accepted, refused, node, peer), 32, 1200, need={
        'crowds': 16, 'switches': 20}, max_s=120),
]
