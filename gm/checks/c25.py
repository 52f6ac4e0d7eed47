"""Numbers and kinds of messages."""
import importlib

from golem_messages import register
from golem_messages.message import base

from gm import gen, spec
from gm.core import Scenario

PROPERTY = 'C25'
RULE = ('A case runs a history of registrations and look-ups on a register'
        ' of its own against a pair of dicts, or compares one entry of the'
        ' protocol table (number, class, fields in order, signed, encrypted,'
        ' enums, nested messages) to the library. Distinct: (operations and'
        ' verdicts) or (number).')
TYPE_IDS = sorted(spec.TYPES)
library = register.library


def history(ctx):
    rng = ctx.rng
    reg = register.MessageRegister()
    types, classes = {}, {}
    ops = []
    numbers = rng.sample([0, 1, 2, 5, 1000, 1001, 2002, 65535, 65536, -1,
                          'x', 1.5], rng.randrange(2, 8))
    for i in range(rng.randrange(3, 25)):
        number = rng.choice(numbers)
        op = rng.choice(['register', 'register', 'look', 'absent', 'type',
                         'second', 'claim'])
        if op == 'second' and classes:
            # one class, two numbers
            cls = rng.choice(list(classes))
            free = [n for n in numbers if n not in types]
            if free:
                number = rng.choice(free)
                ctx.check(reg.register(number)(cls) is cls, 'decorator',
                          'decorator')
                types[number] = cls
                ctx.event('second number')
        elif op == 'claim' and classes:
            # one that has a number claims a taken one
            cls = rng.choice(list(classes))
            number = rng.choice(list(types))
            ctx.raises(RuntimeError, lambda: reg.register(number)(cls),
                       'number %r taken over' % (number,), 'duplicate')
            ctx.event('claim')
        elif op == 'register':
            cls = type('M%d' % i, (), {})
            if number in types:
                ctx.raises(RuntimeError,
                           lambda: reg.register(number)(cls),
                           'number %r registered twice' % (number,),
                           'duplicate')
                ctx.raises(KeyError, lambda: reg.get_type(cls),
                           'the refused class has a type', 'duplicate')
                ctx.event('duplicate')
            else:
                got = reg.register(number)(cls)
                ctx.check(got is cls, 'the decorator gives %r' % got,
                          'decorator')
                types[number] = cls
                classes[cls] = number
                ctx.event('registered')
        elif op == 'absent':
            odd = rng.choice([3, 77777, 'y', None])
            ctx.check(odd not in reg, 'contains %r' % (odd,), 'absent')
            ctx.raises(KeyError, lambda: reg[odd], 'reg[%r]' % (odd,),
                       'absent')
            ctx.raises(KeyError, lambda: reg.get_type(
                type('Unheard', (), {})), 'unheard class', 'absent')
        elif op == 'type' and classes:
            cls = rng.choice(list(classes))
            # a subclass is not its parent
            sub = type('Sub', (cls,), {})
            ctx.raises(KeyError, lambda: reg.get_type(sub), 'subclass',
                       'absent')
        for n in numbers:
            ctx.check((n in reg) is (n in types), '%r in register' % (n,),
                      'contains')
            if n in types:
                ctx.check(reg[n] is types[n], 'reg[%r]' % (n,), 'look-up')
                mine = [k for k in types if types[k] is types[n]]
                ctx.check(reg.get_type(types[n]) in mine, 'get_type: %r' % (
                    reg.get_type(types[n]),), 'look-up')
        ops.append(op[0])
    other = register.MessageRegister()
    for n in numbers:
        ctx.check(n not in other, 'registers share entries', 'shared')
    ctx.check(library.get_type(base.Hello) == 0 and 'x' not in library,
              'library disturbed', 'shared')
    ctx.distinct(tuple(ops), tuple(map(str, numbers)))
    ctx.sample(ops)


def table(ctx):
    type_id = TYPE_IDS[ctx.index % len(TYPE_IDS)]
    t = spec.TYPES[type_id]
    module, name = t.name.split('.')
    cls = importlib.import_module('golem_messages.message.' + module)
    for part in name.split('.'):
        cls = getattr(cls, part)
    ctx.check(type_id in library, '%d is unknown' % type_id, 'number')
    ctx.check(library[type_id] is cls, '%d is %r' % (
        type_id, library[type_id]), 'number')
    ctx.eq(library.get_type(cls), type_id, 'type of ' + name, 'number')
    ctx.eq((bool(cls.SIGN), bool(cls.ENCRYPT)), (t.sign, t.encrypt),
           'SIGN, ENCRYPT of ' + name, 'policy')
    msg = gen.Maker(ctx.rng, sign='none').make(type_id)
    ctx.eq(msg.header.type_, type_id, 'header of ' + name, 'number')
    fresh_header(ctx, cls, type_id)
    ctx.eq([s for s, _ in msg.slots()], list(t.slots), 'fields of ' + name,
           'fields')
    for slot, members in t.enums.items():
        enum_cls = gen.enum_class(type_id, slot)
        ctx.eq({m.name: m.value for m in enum_cls}, members,
               '%s.%s' % (name, slot), 'enums')
        ctx.check(msg.ENUM_SLOTS.get(slot) is enum_cls, '%s of %s' % (
            slot, name), 'enums')
    ctx.eq({s: (library.get_type(d.get_class()), d.allow_none, d.is_list)
            for s, d in msg.MSG_SLOTS.items()},
           {s: tuple(d) for s, d in t.msgs.items()}, 'nested messages of ' +
           name, 'nested')
    ctx.event('entry')
    ctx.distinct(type_id)


def fresh_header(ctx, cls, type_id):
    try:
        msg = cls()
    except Exception:
        return
    ctx.eq((msg.header.type_, msg.header.encrypted, msg.sig),
           (type_id, False, None), 'fresh ' + cls.__name__, 'fresh')
    ctx.event('fresh')


def numbers(ctx):
    """Nothing else has a number; numbers fit the header's field."""
    lo = ctx.index * 4096
    known = {n for n in range(lo, lo + 4096) if n in library}
    ctx.eq(known, {n for n in TYPE_IDS if lo <= n < lo + 4096},
           'numbers in use', 'numbers')
    ctx.event('blocks')
    ctx.distinct(lo)


SCENARIOS = [
    Scenario('history', history, 300, 10000, need={
        'claim': 100,
        'registered': 450, 'duplicate': 250, 'second number': 100}),
    Scenario('table', table, len(TYPE_IDS), len(TYPE_IDS) * 4, need={
        'entry': len(TYPE_IDS), 'fresh': 30}),
    Scenario('numbers', numbers, 17, 17, need={'blocks': 17}),
]
