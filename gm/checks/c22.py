"""Mappings with fixed keys and guarded values."""
import copy
import pickle

from golem_messages import datastructures, exceptions
from golem_messages.datastructures import p2p, stats
from golem_messages.message import concents, tasks

from gm import gen
from gm.core import Scenario
from gm.crowd import crowd

PROPERTY = 'C22'
RULE = ('A case constructs one of the mappings (or a made-up subclass) from a'
        ' dict, pairs, keywords or a mixture and runs a sequence of'
        ' assignments, deletions and copies against a plain model dict.'
        ' Distinct: (class, way of construction, operations and verdicts).')
FileInfo = concents.FileTransferToken.FileInfo


class Guarded(datastructures.ValidatingDict, datastructures.FrozenDict):
    ITEMS = {'a': 0, 'b': [], 'c': {'x': []}, 'd': None, 'e': 'e'}
    seen = []

    def validate_a(self, value):
        self.seen.append(('a', value))
        if not isinstance(value, int):
            raise exceptions.FieldError('int', field='a', value=value)

    @staticmethod
    def validate_b(value):
        Guarded.seen.append(('b', value))
        if not isinstance(value, list):
            raise exceptions.FieldError('list', field='b', value=value)

    validate_e = 'not callable'


class Loose(datastructures.ValidatingDict):
    def validate_a(self, value):
        if value == 'bad':
            raise exceptions.FieldError('bad', field='a', value=value)


ANY = object()
GOOD = {
    'varchar': lambda r: r.choice(['', 'x' * 128, '漢' * 128, gen.text(r)]),
    'category': lambda r: r.choice(list(FileInfo.Category)),
    'int': lambda r: gen.integer(r), 'list': lambda r: [r.random()],
    'ip': lambda r: gen.ipaddr(r), 'port': lambda r: gen.port(r),
    'node': lambda r: gen.node(r), 'any': lambda r: gen.freeform(r),
    'a': lambda r: r.choice([1, None, 'good', []]),
}
BAD = {
    'varchar': lambda r: r.choice([None, 1, 'x' * 129, b'x', [], 1.5]),
    'category': lambda r: r.choice(['results', 'resources', None, 0, '',
                                    'Results']),
    'int': lambda r: r.choice(['1', None, 1.5, []]),
    'list': lambda r: r.choice([(), None, {}, 'x']),
    'ip': lambda r: r.choice(['x', '', None, '1.2.3', []]),
    'port': lambda r: r.choice([0, 65536, None, '80', True, -1]),
    'node': lambda r: r.choice([None, 'x', 5, []]),
    'a': lambda r: 'bad',
}
ZERO4 = {'percpu_usage': [], 'total_usage': 0, 'usage_in_kernelmode': 0,
         'usage_in_usermode': 0}
# class -> ({key: default}, {key: kind}, frozen?)
TABLE = {
    tasks.ComputeTaskDef: (
        {'task_id': '', 'subtask_id': '', 'deadline': 0, 'extra_data': {},
         'performance': 0, 'docker_images': None, 'resources': []},
        {'task_id': 'varchar', 'subtask_id': 'varchar'}, True),
    FileInfo: (
        {'path': '', 'checksum': '', 'size': 0,
         'category': FileInfo.Category.results},
        {'category': 'category'}, True),
    stats.BlockIoEntry: (
        {'major': 0, 'minor': 0, 'op': None, 'value': 0}, {}, True),
    stats.CpuUsage: (ZERO4, {}, True),
    stats.ThrottlingData: (
        {'periods': 0, 'throttled_periods': 0, 'throttled_time': 0}, {},
        True),
    stats.MemoryData: (
        {'failcnt': 0, 'limit': 0, 'max_usage': 0, 'usage': 0}, {}, True),
    Guarded: ({'a': 0, 'b': [], 'c': {'x': []}, 'd': None, 'e': 'e'},
              {'a': 'int', 'b': 'list'}, True),
    # the two keys have no acceptable default
    p2p.Peer: ({'address': None, 'port': None, 'node': None},
               {'address': 'ip', 'port': 'port', 'node': 'node'}, True),
    Loose: ({'a': None, 'b': None, 'z': None}, {'a': 'a'}, False),
    datastructures.SetItemDict: ({'a': None, 'q': None}, {}, False),
}
CLASSES = list(TABLE)
REFUSALS = (exceptions.FieldError, KeyError)


def some_value(rng, cls, key, bad=0.2):
    kind = TABLE[cls][1].get(key, 'any')
    if kind in BAD and rng.random() < bad:
        return BAD[kind](rng), 'bad'
    return GOOD[kind](rng), 'ok'


def construct(cls, items, way, rng):
    cut = rng.randrange(len(items) + 1)
    if way == 'dict':
        return cls(dict(items))
    if way == 'pairs':
        return cls(items)
    if way == 'iterator':
        return cls(iter(items))
    if way == 'kwargs':
        return cls(**dict(items))
    if way == 'items':
        return cls(dict(items).items())
    return cls(items[:cut] if rng.random() < 0.5 else dict(items[:cut]),
               **dict(items[cut:]))


def same(a, b):
    return gen.canon(dict(a)) == gen.canon(dict(b))


def plain(v):
    return copy.deepcopy(v)


def compare(ctx, obj, model, label):
    ctx.check(same(obj, model), '%s: %r, should be %r' % (
        label, dict(obj), model), 'content')
    ctx.eq(sorted(obj), sorted(model), label, 'content')


def fill(ctx, cls, obj, model, op):
    """Several keys at once, by the ways a dict has for it."""
    rng = ctx.rng
    defaults, _, frozen = TABLE[cls]
    keys = rng.sample(list(defaults), rng.randrange(1, len(defaults) + 1))
    if op == 'setdefault':
        keys = keys[:1]
    items = [(k,) + some_value(rng, cls, k, 0.15) for k in keys]
    if frozen and rng.random() < 0.15:
        items.insert(rng.randrange(len(items) + 1),
                     (rng.choice(['new', 'ITEMS', '', 'task id']), 1, 'new'))
    if op == 'setdefault' and rng.random() < 0.5 and not frozen:
        obj.pop(items[0][0], None)
        model.pop(items[0][0], None)
    pairs = [(k, v) for k, v, _ in items]
    if op == 'setdefault':
        k, v, verdict = items[0]
        way = 'one'
        if k in model:
            verdict = 'ok'

        def go():
            ctx.check(obj.setdefault(k, v) is obj[k],
                      'setdefault gives another value', 'filled')
        pairs = [] if k in model else [(k, v)]
        verdicts = {verdict}
    else:
        way = rng.choice(['dict', 'pairs', 'kwargs', 'mixed', 'ior'])
        verdicts = {v for _, _, v in items}
        known = dict(pairs)

        def go():
            if way == 'dict':
                obj.update(known)
            elif way == 'pairs':
                obj.update(iter(pairs))
            elif way == 'kwargs':
                obj.update(**known)
            elif way == 'mixed':
                cut = rng.randrange(len(pairs) + 1)
                obj.update(dict(pairs[:cut]), **dict(pairs[cut:]))
            else:
                same_one = obj
                same_one |= known
                ctx.check(same_one is obj, '|= makes another', 'filled')
    if verdicts <= {'ok'}:
        go()
        model.update(pairs)
        ctx.event('filled')
        return ':' + way
    e = ctx.raises(REFUSALS, go, '%s filled with %r' % (cls.__name__, pairs),
                   'filled')
    if isinstance(e, exceptions.FieldError):
        ctx.check('bad' in verdicts, 'refused %r: %r' % (pairs, e), 'filled')
    else:
        ctx.check('new' in verdicts, 'refused %r: %r' % (pairs, e), 'filled')
    # what was acceptable may be in by now, what was not may not be
    for k, v, verdict in items:
        if verdict == 'ok' and k in obj and (
                k not in model or
                gen.canon(obj[k]) != gen.canon(model[k])):
            ctx.eq(gen.canon(obj[k]), gen.canon(v), 'value filled in',
                   'filled')
            model[k] = v
    ctx.event('filled: refused')
    return ':' + way + ':refused'


def history(ctx):
    rng = ctx.rng
    cls = CLASSES[ctx.index % len(CLASSES)]
    defaults, kinds, frozen = TABLE[cls]
    names = [k for k in defaults if rng.random() < 0.7]
    if cls is p2p.Peer and rng.random() < 0.7:
        names = list(defaults)
    rng.shuffle(names)
    verdicts = []
    items = []
    for k in names:
        v, verdict = some_value(rng, cls, k, 0.08)
        items.append((k, v))
        verdicts.append(verdict)
    if rng.random() < 0.1:
        items.insert(rng.randrange(len(items) + 1), ('unheard_of', 1))
        verdicts.append('ok' if not frozen else 'unknown')
    way = rng.choice(['dict', 'pairs', 'iterator', 'kwargs', 'mixed',
                      'items'])
    good = set(verdicts) <= {'ok'}
    if cls is p2p.Peer and not {'address', 'port', 'node'} <= set(names):
        good = False
    if not good:
        e = ctx.raises(REFUSALS, lambda: construct(cls, items, way, rng),
                       '%s made of %r' % (cls.__name__, items), 'construct')
        if 'unknown' in verdicts and 'bad' not in verdicts and \
                cls is not p2p.Peer:
            ctx.check(isinstance(e, KeyError), 'unknown key: %r' % e,
                      'construct')
        ctx.event('refused')
        ctx.distinct(cls.__name__, way, tuple(sorted(set(verdicts))))
        return
    before = {k: gen.canon(v) for k, v in items}
    obj = construct(cls, items, way, rng)
    model = {k: v for k, v in items}
    if frozen:
        for k, v in defaults.items():
            model.setdefault(k, plain(v))
    compare(ctx, obj, model, 'constructed by ' + way)
    ctx.eq({k: gen.canon(v) for k, v in items}, before,
           'the arguments were changed', 'construct')
    ctx.event('constructed')
    ops = []
    for _ in range(rng.randrange(2, 14)):
        op = rng.choice(['set', 'set', 'set', 'unknown', 'attr', 'mutate',
                         'copy', 'deepcopy', 'pickle', 'again', 'del',
                         'update', 'update', 'setdefault'])
        key = rng.choice(list(defaults))
        if op == 'set':
            value, verdict = some_value(rng, cls, key, 0.35)
            if verdict == 'ok':
                obj[key] = value
                model[key] = value
            else:
                e = ctx.raises(
                    exceptions.FieldError,
                    lambda: obj.__setitem__(key, value),
                    '%s[%r] = %r' % (cls.__name__, key, value), 'assigned')
                ctx.eq(e.field, key, 'blames', 'assigned:field')
                ctx.event('refused')
            op += verdict
        elif op in ('update', 'setdefault'):
            op += fill(ctx, cls, obj, model, op)
        elif op == 'unknown' and frozen:
            ctx.raises(KeyError, lambda: obj.__setitem__(
                rng.choice(['new', '', 1, None, 'ITEMS', key + ' ',
                            key.upper()]), 1), 'unknown key', 'unknown')
            ctx.event('refused')
        elif op == 'attr' and frozen:
            name = rng.choice([key, 'new', 'ITEMS', '__class__'])
            ctx.raises(AttributeError, lambda: setattr(obj, name, 1),
                       'attribute %s set' % name, 'attribute')
            ctx.event('refused')
        elif op == 'mutate':
            # what one holds is one's own
            if key in model and isinstance(obj[key], list) and \
                    key not in dict(items):
                obj[key].append('mine')
                if obj[key] is not model[key]:
                    model[key].append('mine')
        elif op in ('copy', 'deepcopy', 'pickle', 'again'):
            if op == 'pickle' and cls.__module__ != tasks.__name__:
                continue
            other = {'copy': copy.copy, 'deepcopy': copy.deepcopy,
                     'again': cls,
                     'pickle': lambda o: pickle.loads(pickle.dumps(o)),
                     }[op](obj) if key in obj or frozen else obj
            ctx.check(type(other) is cls, '%s gives %s' % (op, type(other)),
                      'copied')
            if not (cls is p2p.Peer and op == 'deepcopy'):
                compare(ctx, other, model, op)
        elif op == 'del' and not frozen and key in obj:
            del obj[key]
            del model[key]
        compare(ctx, obj, model, 'after ' + op)
        ops.append(op)
    # and the next one starts afresh
    if cls is not p2p.Peer and frozen:
        compare(ctx, cls(), defaults, 'a fresh %s' % cls.__name__)
        ctx.event('fresh')
    ctx.distinct(cls.__name__, way, tuple(ops))
    ctx.sample((cls.__name__, way, ops))


def defaults_apart(ctx):
    """Defaults are copies, however deep."""
    rng = ctx.rng
    frozen = [c for c in CLASSES if TABLE[c][2] and c is not p2p.Peer]
    cls = frozen[ctx.index % len(frozen)]
    defaults = TABLE[cls][0]
    objs = [cls() for _ in range(rng.randrange(2, 4))]
    for o in objs[:1]:
        for k, v in o.items():
            if isinstance(v, list):
                v.append(1)
            elif isinstance(v, dict):
                v['touched'] = 1
                for inner in v.values():
                    if isinstance(inner, list):
                        inner.append('deep')
        ctx.event('touched')
    for o in objs[1:] + [cls(), cls({})]:
        ctx.check(same(o, defaults), 'shared default: %r' % dict(o),
                  'defaults')
    ctx.check(same(cls.ITEMS, defaults), 'ITEMS changed: %r' % cls.ITEMS,
              'defaults')
    ctx.distinct(cls.__name__, len(objs))


def every_value_seen(ctx):
    """The guard is asked about each value, the default included."""
    rng = ctx.rng
    Guarded.seen[:] = []
    items = [(k, v) for k, v in (('a', rng.randrange(5)), ('b', [7]),
                                 ('d', 1)) if rng.random() < 0.6]
    rng.shuffle(items)
    obj = construct(Guarded, items, rng.choice(
        ['dict', 'pairs', 'kwargs', 'mixed']), rng)
    want = dict({'a': 0, 'b': []}, **{k: v for k, v in items if k in 'ab'})
    ctx.eq(sorted(Guarded.seen, key=repr), sorted(want.items(), key=repr),
           'values the guard was asked about', 'guard')
    Guarded.seen[:] = []
    obj['a'] = 9
    obj['d'] = 'x'
    obj['e'] = 'y'
    ctx.eq(Guarded.seen, [('a', 9)], 'guard on assignment', 'guard')
    ctx.event('asked')
    ctx.distinct(tuple(k for k, _ in items))


def namesakes(ctx):
    """Classes of one name, each with its own keys, defaults and rules."""
    rng = ctx.rng
    kinds = []
    for i in range(rng.randrange(2, 5)):
        items = {k: '%s%d' % (k, i) for k in 'abcd' if rng.random() < 0.7}
        guarded = {k for k in items if rng.random() < 0.5}
        spare = rng.choice('xyz')

        def guard(key, i):
            def check(value):
                if value != '%s%d' % (key, i) and value != 'any':
                    raise exceptions.FieldError('no', field=key, value=value)
            return staticmethod(check)
        ns = {'validate_' + k: guard(k, i) for k in guarded}
        if rng.random() < 0.7:
            ns['ITEMS'] = dict(items)
            bases = (datastructures.ValidatingDict,
                     datastructures.FrozenDict)
            frozen = True
        else:
            bases = (datastructures.ValidatingDict,)
            frozen = False
        cls = type('Kind', bases, ns)
        for _ in range(rng.choice([0, 0, 1, 3])):   # of the same rules
            cls = type('Kind', (cls,), {})
        kinds.append((cls, i, items, guarded, frozen, spare))
    for _ in range(rng.randrange(4, 16)):
        cls, i, items, guarded, frozen, spare = rng.choice(kinds)
        key = rng.choice('abcd')
        value = rng.choice(['any', '%s%d' % (key, i), key + '9', key + '0',
                            key + '1'])
        good = not (key in guarded and value not in (
            'any', '%s%d' % (key, i)))
        known = not frozen or key in items
        obj = cls() if rng.random() < 0.5 else None

        def go():
            if obj is None:
                return cls(**{key: value})
            obj[key] = value
            return obj
        if not known:
            ctx.raises(KeyError, go, 'key of a namesake', 'namesake')
            ctx.event('refused')
        elif not good:
            ctx.raises(exceptions.FieldError, go, '%r by the rule of a '
                       'namesake' % value, 'namesake')
            ctx.event('refused')
        else:
            want = dict(items) if frozen else {}
            want[key] = value
            ctx.eq(dict(go()), want, 'content', 'namesake')
            ctx.event('taken')
        ctx.distinct(len(kinds), frozen, known, good)


SCENARIOS = [
    Scenario('history', history, 2400, 60000, need={
        'refused': 1500, 'constructed': 1200, 'fresh': 800,
        'filled': 800, 'filled: refused': 300}),
    Scenario('defaults_apart', defaults_apart, 60, 600,
             need={'touched': 60}),
    Scenario('namesakes', namesakes, 200, 4000, need={
        'refused': 300, 'taken': 600}),
    Scenario('every_value_seen', every_value_seen, 40, 600,
             need={'asked': 40}),
    Scenario('crowd', crowd(history, namesakes, namesakes, each=12), 64,
             1800, need={
        'crowds': 16, 'switches': 20}, max_s=120),
]
assert ANY
