"""The serializer."""
from golem_messages import datastructures, exceptions, serializer
from golem_messages.datastructures import promissory

from gm import gen, ref
from gm.core import Scenario
from gm.crowd import crowd

PROPERTY = 'C26'
RULE = ('A case sends generated plain values through dumps and loads and'
        ' compares bytes and values to an own CBOR implementation, feeds'
        ' truncated or random bytes to loads, or values CBOR has no form for'
        ' to dumps. Distinct: (bytes) or (kind of failure).')


def exact(v):
    """Type-exact, order-exact description."""
    if isinstance(v, dict):
        return ('map',) + tuple((exact(k), exact(x)) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return ('seq',) + tuple(exact(x) for x in v)
    return (type(v).__name__, repr(v))


SPECIAL = [-0.0, 0.0, [-0.0], {'k': -0.0}, float('inf'), float('-inf'),
           5e-324, 2.0**53, -2.0**63, 1.0, 0, False, '', b'', None, [], {},
           -1, 2**64 - 1, 2**64, -2**64, -2**64 - 1, [True, 1, 1.0],
           {'a': None}, {'': ''}, {0: 0, '0': 0}, {-1: 1, 1: -1},
           [[[[[]]]]], [b'a', 'a'], '\0', '\U0010ffff', b'\xff\0', 1e400]


def fidelity(ctx):
    rng = ctx.rng
    value = gen.freeform(rng, rng.choice([0, 1, 2, 4]))
    if rng.random() < 0.1:
        value = tuple(value) if isinstance(value, list) else (value,)
    if rng.random() < 0.05:
        value = [value] * rng.choice([23, 24, 255, 256, 300])
    if rng.random() < 0.05:
        value = {('k%d' % i): i for i in range(rng.choice([23, 24, 256]))}
    if rng.random() < 0.1:
        value = rng.choice(SPECIAL)
    if rng.random() < 0.05:
        named = rng.choice([
            datastructures.MessageHeader(1, rng.getrandbits(30), False),
            promissory.PromissoryNoteSig(27, b'r' * 32, b's' * 32),
            datastructures.NestedMessage([1, 2, True], b'', [])])
        value = rng.choice([named, [named], {'k': named}])
        ctx.event('named tuple')
    before = exact(value)
    data = serializer.dumps(value)
    ctx.check(isinstance(data, bytes), 'type', 'dumps')
    ctx.eq(exact(value), before, 'dumps changed the value', 'dumps')
    ctx.eq(data, ref.cbor_enc(value), 'dumps(%r)' % (value,), 'dumps')
    back = serializer.loads(data)
    ctx.eq(exact(back), before, 'loads(dumps(%r))' % (value,), 'loads')
    ctx.eq(serializer.dumps(back), data, 'dumped again', 'dumps')
    ctx.event('there and back')
    ctx.distinct(data[:200])
    ctx.sample(value)


def truncated(ctx):
    rng = ctx.rng
    # (cbor takes a string cut short for a shorter one, so that the last
    # item is a number, which the cut takes away)
    data = serializer.dumps([gen.freeform(rng, 3), rng.randrange(24)])
    for cut in {0, 1, len(data) - 1, rng.randrange(len(data)),
                rng.randrange(len(data))}:
        ctx.raises(exceptions.SerializationError,
                   lambda: serializer.loads(data[:cut]),
                   'loads of %d bytes of %d' % (cut, len(data)), 'truncated')
        ctx.event('refused')
    ctx.distinct(data[:100])


def hostile(ctx):
    """Whatever the bytes, nothing but SerializationError comes out."""
    rng = ctx.rng
    kind = rng.randrange(5)
    if kind == 0:
        data = bytes(rng.getrandbits(8) for _ in range(rng.randrange(60)))
    elif kind == 1:
        data = bytearray(serializer.dumps(gen.freeform(rng, 3)))
        for _ in range(rng.randrange(1, 4)):
            data[rng.randrange(len(data))] = rng.getrandbits(8)
        data = bytes(data)
    elif kind == 2:
        data = rng.choice([
            b'\x9f', b'\xbf', b'\x5f', b'\x7f', b'\xff', b'\x1c', b'\xfc',
            b'\x81' * 5000, b'\xa1' * 3000, b'\x9b' + b'\xff' * 8,
            b'\x5b' + b'\xff' * 8, b'\x7b' + b'\x7f' * 8, b'\xbb' + b'\xff' *
            8, b'\xa1\x80\x01', b'\xa1\xa0\x01', b'\x62\xff\xff',
            b'\xc2\x61a', b'\xd9\xff\xff\x00', b'\xf8\x00', b'\xc0' * 3000])
    elif kind == 3:
        data = rng.choice([None, 5, 'text', [], {}, 1.5, object()])
    else:
        data = bytes([rng.randrange(256)]) + bytes(
            rng.getrandbits(8) for _ in range(rng.randrange(12)))
    try:
        serializer.loads(data)
    except exceptions.SerializationError as e:
        ctx.check(e.__cause__ is not None, 'cause lost', 'hostile')
        ctx.event('refused')
        out = 'refused'
    else:
        ctx.event('read')
        out = 'read'
    ctx.event('oracle')
    ctx.distinct(kind, out, repr(data)[:60])


class Odd:
    pass


def inexpressible(ctx):
    rng = ctx.rng
    bad = rng.choice([Odd(), Odd, object(), lambda: 0, 1j, {1, 2}, range(3),
                      Ellipsis, iter([]), '\ud800', 'a\udfffb', 'x\udc80'])
    for _ in range(rng.randrange(4)):
        bad = rng.choice([lambda v: [v], lambda v: {'k': v},
                          lambda v: [1, v, 2], lambda v: (v,)])(bad)
    ctx.raises(exceptions.SerializationError, lambda: serializer.dumps(bad),
               'dumps(%r)' % (bad,), 'inexpressible')
    ctx.event('refused')
    ctx.distinct(repr(type(bad)), ctx.index % 30)


SCENARIOS = [
    Scenario('fidelity', fidelity, 2400, 80000, need={
        'there and back': 2400}),
    Scenario('truncated', truncated, 400, 12000, need={'refused': 1200}),
    Scenario('hostile', hostile, 1600, 60000, need={
        'refused': 500, 'read': 100}),
    Scenario('inexpressible', inexpressible, 100, 1000,
             need={'refused': 100}),
    Scenario('crowd', crowd(fidelity, hostile, each=12), 32, 1200, need={
        'crowds': 16, 'switches': 20}, max_s=120),
]
