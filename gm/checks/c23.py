"""Ids bound to the key of whoever made them."""
import re
import unittest.mock
import uuid

from golem_messages import idgenerator

from gm import clock, gen
from gm.core import Scenario

PROPERTY = 'C23'
RULE = ('A case generates ids from one seed (bytes or hex, of several'
        ' lengths), derives new ids from them, and checks node, version,'
        ' uniqueness (also under a frozen or backward clock, or from'
        ' generators started anew at one instant) and the verdict of'
        ' check_id_seed for that and for other seeds against plain hex arithmetic. Distinct: (seed, operation,'
        ' verdict).')


def node_hex(id_):
    return id_.replace('-', '')[-12:]


def seed_hex(seed):
    """48 bits, big endian, of the seed's beginning."""
    return seed[:6].hex().rjust(12, '0')


def a_seed(rng):
    kind = rng.randrange(6)
    if kind == 0:
        return gen.key(rng).pub
    if kind == 1:
        return rng.getrandbits(48).to_bytes(6, 'big')
    if kind == 2:
        return rng.choice([b'\0' * 64, b'\xff' * 64, b'\0' * 5 + b'\1',
                           b'\x80' + b'\0' * 5, b'\0\0\0\0\0\xff\xff',
                           b'\xff\0\0\0\0\0', b'\xff' * 6])
    if kind == 3:
        return rng.getrandbits(8 * 64).to_bytes(64, 'big')
    if kind == 4:
        return rng.getrandbits(8 * 33).to_bytes(33, 'big')
    n = rng.randrange(6)
    return rng.getrandbits(8 * n).to_bytes(n, 'big') if n else b''


def well_formed(ctx, id_, seed, how):
    ctx.check(isinstance(id_, str) and len(id_) == 36
              and str(uuid.UUID(id_)) == id_, '%s: %r' % (how, id_),
              'shape')
    ctx.eq(uuid.UUID(id_).version, 1, 'version', 'shape')
    ctx.eq(node_hex(id_), seed_hex(seed), '%s from %s' % (how, seed.hex()),
           'node')


def generation(ctx):
    rng = ctx.rng
    seed = a_seed(rng)
    ctx.eq(idgenerator.seed_to_node(seed), int(seed_hex(seed), 16),
           'seed_to_node', 'node')
    text = seed.hex().upper() if rng.random() < 0.3 else seed.hex()
    ctx.eq(idgenerator.hex_seed_to_node(text), int(seed_hex(seed), 16),
           'hex_seed_to_node', 'node')
    seen = set()

    def one():
        kind = rng.randrange(3)
        if kind == 0:
            return idgenerator.generate_id(seed), 'generate_id'
        if kind == 1:
            return idgenerator.generate_id_from_hex(text), \
                'generate_id_from_hex'
        base = rng.choice(sorted(seen)) if seen else \
            gen.seeded_uuid(rng, seed.rjust(6, b'\0') if len(seed) < 6
                            else seed)
        if rng.random() < 0.3:
            base = rng.choice([base.upper(), base.replace('-', ''),
                               '{%s}' % base])
        return idgenerator.generate_new_id_from_id(base), \
            'generate_new_id_from_id'

    def many():
        for _ in range(rng.randrange(2, 12)):
            id_, how = one()
            well_formed(ctx, id_, seed, how)
            ctx.check(id_ not in seen, '%s repeated %s' % (how, id_),
                      'unique')
            seen.add(id_)
            ctx.event('generated')
            for check, s in ((idgenerator.check_id_seed, seed),
                             (idgenerator.check_id_hex_seed, text)):
                ctx.check(check(id_, s) is True, 'own id %s refused' % id_,
                          'check:refused')
    many()
    if rng.random() < 0.3:
        with clock.frozen(1600000000 + rng.randrange(10**6)) as move:
            many()
            move(rng.choice([-3600, 0, 0, 5]))
            many()
        ctx.event('frozen')
    ctx.distinct(seed_hex(seed), len(seed))
    ctx.sample((seed.hex(), sorted(seen)[:2]))


def _around(rng, id_):
    """A right id with something that does not belong to it."""
    what = rng.choice([' ', '\n', '\t', '\r\n', '\0', "'", '"', ',', '.',
                       '0x', 'b', '\u200b', '\xa0', '_', '+', '[', ')'])
    kind = rng.randrange(7)
    if kind >= 5:       # just as long
        what = rng.choice([what, what, '\u0660', '\uff11', 'x', '0x', '__'])
        i = rng.choice([0, 0, 1, rng.randrange(len(id_))])
        if not kind % 2:
            id_ = id_.replace('-', '')
        return (id_[:i] + what + id_[i + len(what):])
    if kind == 0:
        return id_ + what
    if kind == 1:
        return what + id_
    if kind == 2:
        return what + id_ + what
    if kind == 3:
        i = rng.randrange(1, len(id_))
        return id_[:i] + what + id_[i:]
    return what.join(id_.split('-'))


def checking(ctx):
    rng = ctx.rng
    seed = a_seed(rng)
    long = seed.rjust(6, b'\0') if len(seed) < 6 else seed
    kind = rng.randrange(9)
    if kind == 0:
        id_ = gen.seeded_uuid(rng, long)
    elif kind == 1:
        near = bytearray(long)
        near[rng.randrange(6)] ^= 1 << rng.randrange(8)
        id_ = gen.seeded_uuid(rng, bytes(near))
    elif kind == 2:
        id_ = gen.seeded_uuid(rng, a_seed(rng).rjust(6, b'\0'))
    elif kind == 3:
        # whatever version; only the node counts
        id_ = str(uuid.UUID(hex='%020x' % rng.getrandbits(80)
                            + seed_hex(seed)))
    elif kind == 4:
        id_ = gen.seeded_uuid(rng, long)
        id_ = rng.choice([id_.upper(), id_.replace('-', ''), '{%s}' % id_,
                          'urn:uuid:' + id_])
    elif kind == 5:
        # the node of the id reversed, or in front
        id_ = gen.seeded_uuid(rng, bytes(reversed(long[:6])))
    elif kind == 6:
        id_ = str(uuid.UUID(hex=seed_hex(seed) + '%020x' %
                            rng.getrandbits(80)))
    elif kind == 8:
        id_ = _around(rng, gen.seeded_uuid(rng, long))
    else:
        id_ = rng.choice(['', 'x', 'task_id', '0' * 31, '0' * 33, 'g' * 32,
                          seed_hex(seed), seed.hex(), 'é' * 36,
                          gen.seeded_uuid(rng, long)[:-1],
                          gen.seeded_uuid(rng, long) + '0'])
    digits = id_.replace('urn:uuid:', '').strip('{}').replace('-', '').lower()
    want = re.fullmatch('[0-9a-f]{32}', digits) is not None \
        and digits[-12:] == seed_hex(seed)
    for check, s in ((idgenerator.check_id_seed, seed),
                     (idgenerator.check_id_hex_seed, seed.hex())):
        got = check(id_, s)
        ctx.check(got is want, '%s(%r, %s): %r' % (
            check.__name__, id_, seed.hex(), got),
            'check:accepted' if got else 'check:refused')
    ctx.event('accepted' if want else 'refused')
    # only the beginning of the seed counts
    if len(seed) >= 6:
        tail = seed[:6] + bytes(rng.getrandbits(8)
                                for _ in range(rng.randrange(60)))
        ctx.check(idgenerator.check_id_seed(id_, tail) is want,
                  'the rest of the seed counts', 'check:tail')
    ctx.distinct(kind, want, id_[:4])


def many(ctx):
    """A great many ids, all different."""
    rng = ctx.rng
    seed = gen.key(rng).pub
    base = idgenerator.generate_id(seed)
    n = 100000
    make = [lambda: idgenerator.generate_new_id_from_id(base),
            lambda: idgenerator.generate_id(seed),
            lambda: idgenerator.generate_id_from_hex(seed.hex())][
                ctx.index % 3]
    ids = {make() for _ in range(n)}
    ctx.eq(len(ids), n, 'different ones among %d ids' % n, 'unique')
    ctx.check(all(node_hex(i) == seed_hex(seed) for i in ids), 'node',
              'node')
    ctx.event('many', n)
    ctx.distinct(ctx.index % 3, seed_hex(seed))


def restarts(ctx):
    """A generator that starts anew at the very same instant (another
    process, a machine with a coarse clock, a clock set back)."""
    rng = ctx.rng
    seed = gen.key(rng).pub
    base = gen.seeded_uuid(rng, seed)
    make = [lambda: idgenerator.generate_new_id_from_id(base),
            lambda: idgenerator.generate_id(seed),
            lambda: idgenerator.generate_id_from_hex(seed.hex())][
                ctx.index % 3]
    n = 24
    with clock.frozen(1600000000 + rng.randrange(10**6)), \
            unittest.mock.patch.object(
                uuid, '_generate_time_safe', None, create=True):
        ids = []
        for _ in range(n):
            # where the standard library remembers the last instant
            with unittest.mock.patch.object(
                    uuid, '_last_timestamp', None, create=True):
                ids.append(make())
    for id_ in ids:
        well_formed(ctx, id_, seed, 'after a restart')
    # told apart by 14 random bits, so two of them may meet (rarely more)
    ctx.check(len(set(ids)) >= n - 3, '%d different ids from %d generators'
              ' at one instant' % (len(set(ids)), n), 'restarts')
    ctx.event('restarts', n)
    ctx.distinct(ctx.index % 3, seed_hex(seed))


SCENARIOS = [
    Scenario('generation', generation, 400, 12000, need={
        'generated': 2000, 'frozen': 60}),
    Scenario('many', many, 12, 60, need={'many': 600000}),
    Scenario('restarts', restarts, 60, 2000, need={'restarts': 1400}),
    Scenario('checking', checking, 2000, 60000, need={
        'accepted': 500, 'refused': 800}),
]
