"""Masks: which nodes a task is offered to."""
import hashlib

from golem_messages.datastructures import masking

from gm import gen
from gm.core import Scenario
from gm.crowd import crowd

PROPERTY = 'C24'
RULE = ('A case runs a history of generate / increase / decrease / conversion'
        ' on masks against integers as the model, matches addresses against'
        ' an own SHA-256, or sizes a mask for a task in exact arithmetic;'
        ' one scenario looks at how random the choice of bits is. Distinct:'
        ' (operation, argument class, bits before and after).')
Mask = masking.Mask
ALL = 1 << 256


def popcount(n):
    return bin(n).count('1')


def consistent(ctx, mask, want=None):
    """All views of one mask say the same."""
    raw = mask.to_bytes()
    ctx.check(isinstance(raw, bytes) and len(raw) == 32,
              'to_bytes: %r' % (raw,), 'views')
    n = int(raw.hex(), 16)
    if want is not None:
        ctx.eq(n, want, 'mask', 'content')
    ctx.eq(mask.to_int(), n, 'to_int', 'views')
    ctx.eq(mask.to_bin(), bin(n)[2:].rjust(256, '0'), 'to_bin', 'views')
    ctx.eq(mask.to_bits(), {i for i in range(256) if n >> i & 1}, 'to_bits',
           'views')
    ctx.eq(mask.num_bits, popcount(n), 'num_bits', 'views')
    # what is done to an answer stays there
    answer = mask.to_bits()
    if n & 1:
        answer.clear()
    else:
        answer.update((0, 300))
    ctx.eq((mask.to_bits(), mask.num_bits, mask.to_int()),
           ({i for i in range(256) if n >> i & 1}, popcount(n), n),
           'mask after its answer was written to', 'views')
    short = type(mask)(raw.lstrip(b'\0'))
    ctx.eq((short.to_int(), short.to_bin(), short.to_bits(), short.num_bits),
           (n, mask.to_bin(), mask.to_bits(), mask.num_bits),
           'the same number in fewer bytes', 'views')
    for addr, digest in ASKED:
        ctx.check(mask.matches(addr) is (digest & n == 0),
                  'matches: not %r' % (digest & n == 0), 'matches')
    return n


# always the same nodes ask
ASKED = [(a, int.from_bytes(hashlib.sha256(a).digest(), 'big'))
         for a in (b'node', b'a' * 64)]


def amount(rng, free):
    """(number of bits to ask for) around the interesting sizes."""
    return rng.choice([0, 1, 2, 3, 8, free, free - 1 if free else 0,
                       free + 1, 256, 257, 1000, 10**9,
                       rng.randrange(257), rng.randrange(20)])


def some_int(rng):
    kind = rng.randrange(5)
    if kind == 0:
        return rng.choice([0, ALL - 1, 1, 1 << 255, ALL - 2,
                           (1 << 255) - 1, 255, 1 << 128])
    if kind == 1:
        return sum(1 << b for b in rng.sample(range(256), rng.randrange(9)))
    if kind == 2:
        return (ALL - 1) ^ sum(
            1 << b for b in rng.sample(range(256), rng.randrange(9)))
    return rng.getrandbits(256)


def history(ctx):
    rng = ctx.rng
    start = some_int(rng)
    how = rng.choice(['bytes', 'bits', 'dict', 'default', 'generate'])
    if how == 'bytes':
        mask = Mask(start.to_bytes(32, 'big'))
    elif how == 'bits':
        bits = {b for b in range(256) if start >> b & 1}
        mask = Mask.from_bits(bits)
        ctx.eq(bits, {b for b in range(256) if start >> b & 1},
               'from_bits changed its argument', 'from_bits')
    elif how == 'dict':
        mask = Mask.from_dict({'byte_repr': start.to_bytes(32, 'big')})
    elif how == 'default':
        start = 0
        mask = rng.choice([Mask, lambda: Mask.from_bits(set()),
                           lambda: Mask.generate(), lambda: Mask.generate(0),
                           lambda: Mask.from_dict({})])()
    else:
        n = amount(rng, 256)
        mask = Mask.generate(n) if rng.random() < 0.5 else \
            Mask.generate(num_bits=n)
        start = consistent(ctx, mask)
        ctx.eq(popcount(start), min(n, 256), 'generate(%d)' % n, 'generate')
        ctx.event('generated')
    ctx.check(type(mask) is Mask, 'type', 'views')
    now = consistent(ctx, mask, start)
    witness = Mask(now.to_bytes(32, 'big'))     # shares nothing with it
    first = now
    ops = []
    for _ in range(rng.randrange(1, 7)):
        count = popcount(now)
        op = rng.choice(['increase', 'decrease', 'increase', 'decrease',
                         'negative', 'zero'])
        if op == 'increase':
            n = amount(rng, 256 - count)
            if n == 1 and rng.random() < 0.5:
                mask.increase()
            else:
                mask.increase(n)
            new = consistent(ctx, mask)
            ctx.check(now & ~new == 0, 'increase(%d) took bits away' % n,
                      'increase')
            ctx.eq(popcount(new), min(256, count + n),
                   'increase(%d) from %d' % (n, count), 'increase')
        elif op == 'decrease':
            n = amount(rng, count)
            if n == 1 and rng.random() < 0.5:
                mask.decrease()
            else:
                mask.decrease(n)
            new = consistent(ctx, mask)
            ctx.check(new & ~now == 0, 'decrease(%d) added bits' % n,
                      'decrease')
            ctx.eq(popcount(new), max(0, count - n),
                   'decrease(%d) from %d' % (n, count), 'decrease')
        else:
            n = 0
            if op == 'negative':
                bad = -rng.choice([1, 2, 256, 257, 10**9])
                for call in (mask.increase, mask.decrease, Mask.generate):
                    ctx.raises(ValueError, lambda: call(bad),
                               '%s(%d)' % (call.__name__, bad), 'negative')
            else:
                mask.increase(0)
                mask.decrease(0)
            new = consistent(ctx, mask, now)
        now = new
        ctx.event(op)
        ops.append((op, min(n, 257)))
    consistent(ctx, witness, first)
    if hasattr(Mask, 'ALL_BITS'):
        ctx.eq(set(Mask.ALL_BITS), set(range(256)), 'ALL_BITS', 'shared')
    consistent(ctx, Mask(), 0)
    ctx.distinct(how, tuple(ops), popcount(first), popcount(now))
    ctx.sample((how, popcount(first), ops, popcount(now)))


def matching(ctx):
    rng = ctx.rng
    addr = rng.choice([b'', b'\0', gen.key(rng).pub,
                       rng.getrandbits(512).to_bytes(64, 'big'),
                       b'a' * 1000])
    digest = int.from_bytes(hashlib.sha256(addr).digest(), 'big')
    kind = rng.randrange(7)
    if kind == 0:
        n = some_int(rng)
    elif kind == 1:
        n = ((ALL - 1) ^ digest) & some_int(rng)        # no common bit
    elif kind == 2:
        n = (ALL - 1) ^ digest                          # everything else
    elif kind == 3:
        ones = [b for b in range(256) if digest >> b & 1]
        n = ((ALL - 1) ^ digest) | 1 << rng.choice(ones)  # just one
    elif kind == 4:
        n = digest
    elif kind == 5:
        n = 1 << rng.randrange(256)
    else:
        n = int.from_bytes(bytes(reversed(hashlib.sha256(
            addr).digest())), 'big') ^ (ALL - 1)
    want = digest & n == 0
    mask = Mask(n.to_bytes(32, 'big'))
    ctx.check(mask.matches(addr) is want, 'matches: not %r (kind %d)' % (
        want, kind), 'matches')
    consistent(ctx, mask, n)
    ctx.event('match' if want else 'no match')
    # fewer bits never lose a match; more never win one
    if want:
        mask.decrease(rng.randrange(1, 20))
        ctx.check(mask.matches(addr) is True, 'lost by decrease', 'monotone')
    else:
        mask.increase(rng.randrange(1, 20))
        ctx.check(mask.matches(addr) is False, 'won by increase', 'monotone')
    ctx.check(Mask().matches(addr) is True, 'empty mask', 'matches')
    ctx.check(Mask(b'\xff' * 32).matches(addr) is False, 'full mask',
              'matches')
    ctx.distinct(kind, want, len(addr), popcount(n))


def sizing(ctx):
    """As many bits as halve the network down to the workers wanted,
    rounding up."""
    rng = ctx.rng
    desired = rng.choice([1, 2, 3, 4, 5, 7, 8, 100, 1023, 1024, 1025,
                          rng.randint(1, 10**6), 2**rng.randrange(20)])
    k = rng.randrange(20)
    potential = rng.choice([
        desired, desired + 1, desired - 1, desired << k, (desired << k) + 1,
        (desired << k) - 1, rng.randint(1, 10**7), 1, 0, -1, -100,
        2**rng.randrange(30)])
    want = 0
    while potential >= 1 and desired << want < potential:
        want += 1
    mask = Mask.get_mask_for_task(desired, potential) \
        if rng.random() < 0.5 else Mask.get_mask_for_task(
            desired_num_workers=desired, potential_num_workers=potential)
    ctx.check(isinstance(mask, Mask), 'type', 'sizing')
    ctx.eq(popcount(consistent(ctx, mask)), want,
           'mask for %d of %d' % (desired, potential), 'sizing')
    # what is done to one mask is not done to the next
    mask.increase(rng.randrange(1, 9))
    again = Mask.get_mask_for_task(desired, potential)
    ctx.eq(popcount(consistent(ctx, again)), want,
           'next mask for %d of %d' % (desired, potential), 'sizing')
    ctx.event('none' if want == 0 else 'some')
    ctx.distinct(desired, potential, want)


def spread(ctx):
    """Any bit may be chosen, in any company (each claim below fails by
    chance less than once in 2**100 runs)."""
    rng = ctx.rng
    what = ['generate', 'increase', 'decrease'][ctx.index % 3]
    union, inter, seen = 0, ALL - 1, set()
    pairs = set()
    for _ in range(160):
        if what == 'generate':
            mask = Mask.generate(128)
        elif what == 'increase':
            mask = Mask()
            mask.increase(128)
        else:
            mask = Mask(b'\xff' * 32)
            mask.decrease(128)
        n = mask.to_int()
        union |= n
        inter &= n
        seen.add(n)
        pairs.add((n & 1, n >> 1 & 1))
    ctx.eq(union, ALL - 1, 'bits %s never chooses' % what, 'spread')
    ctx.eq(inter, 0, 'bits %s always chooses' % what, 'spread')
    ctx.eq(len(seen), 160, '%s repeats masks' % what, 'spread')
    ctx.check(len(pairs) == 4 or rng is None, 'bits go together', 'spread')
    ctx.event('spread')
    ctx.distinct(what, ctx.index)


def small_steps(ctx):
    """Any free bit may be the one added, any set bit the one removed, also
    when only a few are asked for (chance of a false claim: below 2**-100).

    Each bit is missed by one draw with probability 1 - k/pool, so
    pool/k * 76 draws leave any of 256 of them out with e**-76 * 256."""
    rng = ctx.rng
    what = ['generate', 'increase', 'decrease'][ctx.index % 3]
    k = rng.choice([1, 1, 2, 3, 5, 8])
    start = rng.choice([0, rng.getrandbits(256) & rng.getrandbits(256),
                        rng.getrandbits(256),
                        ALL - 1 ^ rng.getrandbits(256)])
    if what == 'generate':
        start = 0
    if what == 'decrease':
        start ^= ALL - 1
    pool = start if what == 'decrease' else start ^ ALL - 1
    if popcount(pool) <= k:
        return
    union = 0
    raw = start.to_bytes(32, 'big')
    draws = popcount(pool) * 76 // k + 1
    for _ in range(draws):
        if what == 'generate':
            mask = Mask.generate(k)
        else:
            mask = Mask(raw)
            getattr(mask, what)(k)
        changed = mask.to_int() ^ start
        if changed & ~pool or popcount(changed) != k:
            ctx.fail('%s(%d) changed %d bits' % (what, k, popcount(changed)),
                     'small')
        union |= changed
    ctx.eq(union, pool, 'bits %s(%d) never chooses' % (what, k), 'spread')
    ctx.event('draws', draws)
    ctx.distinct(what, k, popcount(pool))


SCENARIOS = [
    Scenario('history', history, 800, 30000, need={
        'generated': 80, 'increase': 500, 'decrease': 500, 'negative': 200}),
    Scenario('matching', matching, 800, 30000, need={
        'match': 150, 'no match': 300}),
    Scenario('sizing', sizing, 1000, 40000, need={
        'none': 200, 'some': 300}),
    Scenario('spread', spread, 24, 240, need={'spread': 24}),
    Scenario('small_steps', small_steps, 48, 480, need={'draws': 100000}),
    Scenario('crowd', crowd(history, matching), 32, 1200, need={
        'crowds': 16, 'switches': 20}, max_s=120),
]
