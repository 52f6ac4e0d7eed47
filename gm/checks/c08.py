"""Ephemeral keys: one recipient, one manager, limited life; and no mix-ups
between recipients under interleaving, eviction, expiry and threads.

Online log: (time, manager, recipient, ephemeral public key, iv) per
encryption; the rules are checked over the whole log of a case.
"""
import sys
import threading

import freezegun

from golem_messages import cryptography, shortcuts

from gm import gen, ref
from gm.core import Scenario

PROPERTY = 'C08'
RULE = ('A case drives one or more key managers through a history of'
        ' encryptions and decryptions for several recipients (twins k / n-k,'
        ' special keys) with clock steps around the timeout, cache eviction'
        ' (> 1024 recipients) or threads; every cipher text is opened with'
        ' the independent implementation. Distinct: (managers, recipients,'
        ' timeout class, step class, rotations seen).')


class Log:
    """Offline rules over the recorded encryptions."""

    def __init__(self):
        self.rows = []

    def add(self, t, manager, recipient, blob):
        self.rows.append((t, manager, recipient, blob[1:65], blob[65:81]))

    def judge(self, ctx, timeouts):
        owner, born, ivs = {}, {}, set()
        recipients = {k for _, _, k, _, _ in self.rows}
        for t, manager, recipient, ephem, iv in self.rows:
            who = owner.setdefault(ephem, (manager, recipient))
            ctx.eq(who[1], recipient, 'ephemeral key shared by recipients',
                   'shared:recipient')
            ctx.eq(who[0], manager, 'ephemeral key shared by managers',
                   'shared:manager')
            first = born.setdefault(ephem, t)
            if timeouts is not None:
                ctx.check(t - first <= timeouts[manager] + 0.01,
                          'ephemeral key used for %r s, timeout %r s' % (
                              t - first, timeouts[manager]), 'expiry')
            ctx.check(iv not in ivs, 'initialisation vector reused', 'iv')
            ivs.add(iv)
            ctx.check(ephem not in recipients,
                      'recipient\'s key used as the ephemeral one', 'static')
        ctx.event('encryptions', len(self.rows))
        ctx.event('ephemeral keys', len(born))
        return len(born)


def twins(rng, n):
    """n distinct keys, among them pairs that share the x coordinate."""
    keys = gen.distinct_keys(rng, n)
    for i in range(0, n - 1, 3):
        other = (ref.N - int.from_bytes(keys[i].priv, 'big')) % ref.N
        twin = gen.Key(other.to_bytes(32, 'big'))
        if all(twin.priv != k.priv for k in keys):
            keys[i + 1] = twin
    return keys


def encrypt(ctx, log, now, name, ecies, k, data):
    blob = ecies.encrypt(data, k.pub)
    log.add(now, name, k.pub, blob)
    ctx.eq(ref.ecies_decrypt(blob, k.priv), data,
           'cipher text does not open with the recipient\'s key', 'mixup')
    return blob


def history(ctx):
    """Single thread, frozen clock moved in steps around the timeout."""
    rng = ctx.rng
    timeouts = [rng.choice([0, 1, 10, 60, 3600, 3600])
                for _ in range(rng.choice([1, 1, 2, 3]))]
    keys = twins(rng, rng.choice([1, 2, 4, 7]))
    log = Log()
    start = 1500000000 + rng.randrange(10**8)
    now = float(start)
    blobs = []
    default = rng.random() < 0.3
    with freezegun.freeze_time() as frozen:
        def move():
            import datetime
            frozen.move_to(datetime.datetime(1970, 1, 1)
                           + datetime.timedelta(seconds=now))
        move()
        if default:
            timeouts[0] = 3600
        managers = [cryptography.ECIES(
            cryptography.ECIESKeyManager() if default and i == 0
            else cryptography.ECIESKeyManager(t))
            for i, t in enumerate(timeouts)]
        steps = [0, 0, 0, 0.5, 1]
        for t in timeouts:
            steps += [t / 4, t / 2, max(t - 1, 0), t, t + 1, 2 * t]
        busy = rng.random() < 0.5
        for _ in range(rng.choice([10, 30, 60])):
            now += rng.choice([0, 0.25, min(timeouts) / 5] if busy else steps)
            now = round(now * 4) / 4
            move()
            if rng.random() < 0.25:     # others come and go
                other = cryptography.ECIESKeyManager(rng.choice(
                    [1, 60, 3600, 10**9]))
                if rng.random() < 0.3:
                    cryptography.ECIES(other).encrypt(
                        b'x', rng.choice(keys).pub)
                ctx.event('others')
            i = rng.randrange(len(managers))
            k = rng.choice(keys)
            data = bytes(rng.getrandbits(8)
                         for _ in range(rng.choice([0, 1, 20, 100])))
            blobs.append((encrypt(ctx, log, now, i, managers[i], k, data),
                          k, data))
            blob, k, data = rng.choice(blobs)
            j = rng.randrange(len(managers))
            ctx.eq(managers[j].decrypt(blob, k.priv), data,
                   'decryption by any manager at any time', 'decrypt')
            wrong = rng.choice(keys)
            if wrong.priv != k.priv:
                ctx.raises(Exception,
                           lambda: managers[j].decrypt(blob, wrong.priv),
                           'opened with another recipient\'s key', 'mixup')
                ctx.event('wrong key')
    n = log.judge(ctx, timeouts)
    ctx.distinct(len(timeouts), len(keys), tuple(timeouts), busy, n)
    if now - start > min(timeouts):
        ctx.event('histories past a timeout')
    ctx.sample((timeouts, len(keys), log.rows[:2]))


def shortcut_history(ctx):
    """The module-wide ECIES object behind shortcuts.dump(), default
    timeout, long history."""
    rng = ctx.rng
    import datetime
    keys = twins(rng, 3)
    cast = gen.Cast(rng)
    log = Log()
    last = ctx.cache.get('shortcut now', 4000000000.0)
    with freezegun.freeze_time() as frozen:
        now = last + rng.random() * 5000
        for _ in range(30):
            now += rng.choice([0, 1, 100, 899, 1800, 3599, 3600, 3601])
            frozen.move_to(datetime.datetime(1970, 1, 1)
                           + datetime.timedelta(seconds=now))
            k = rng.choice(keys)
            msg = gen.Maker(rng, cast=cast, ts=int(now)).make(
                rng.choice([1, 1013, 2027, 3005]))
            wire = shortcuts.dump(msg, cast.provider.priv, k.pub)
            log.add(now, 0, k.pub, wire[76:])
            got = shortcuts.load(wire, k.priv, cast.provider.pub)
            ctx.eq(gen.describe(got), gen.describe(msg), 'content', 'mixup')
    ctx.cache['shortcut now'] = now
    n = log.judge(ctx, [3600])
    ctx.distinct(n)


def eviction(ctx):
    """More recipients than any cache holds, the first ones again later."""
    rng = ctx.rng
    base = rng.getrandbits(240)
    ecies = cryptography.ECIES(cryptography.ECIESKeyManager())
    log = Log()
    privs = [(base + i).to_bytes(32, 'big') for i in range(1100)]
    keys = [gen.Key(p) for p in privs]
    order = keys + rng.sample(keys, 60) + keys[:30]
    for i, k in enumerate(order):
        data = b'%d' % i
        blob = ecies.encrypt(data, k.pub)
        log.add(0, 0, k.pub, blob)
        if i % 7 == 0 or i >= 1000:
            ctx.eq(ref.ecies_decrypt(blob, k.priv), data,
                   'cipher text does not open', 'mixup')
            ctx.eq(ecies.decrypt(blob, k.priv), data, 'decryption', 'decrypt')
    n = log.judge(ctx, None)
    ctx.event('recipients', len(keys))
    ctx.distinct(n, ctx.index)


def threads(ctx):
    """Several threads on one manager whose cache expires all the time."""
    rng = ctx.rng
    keys = twins(rng, rng.choice([2, 3, 6]))
    timeout = rng.choice([0, 0.0005, 0.002, 3600])
    ecies = cryptography.ECIES(cryptography.ECIESKeyManager(timeout))
    plans = [[(rng.choice(keys), b'%d/%d' % (t, i)) for i in range(25)]
             for t in range(rng.choice([2, 4, 8]))]
    results = [[] for _ in plans]
    errors = []
    barrier = threading.Barrier(len(plans))

    def body(n):
        try:
            barrier.wait(30)
            for k, data in plans[n]:
                blob = ecies.encrypt(data, k.pub)
                back = ecies.decrypt(blob, k.priv)
                results[n].append((k, data, blob, back))
        except Exception as e:
            errors.append(repr(e))

    before = sys.getswitchinterval()
    sys.setswitchinterval(rng.choice([1e-6, 1e-5, 1e-4]))
    try:
        ts = [threading.Thread(target=body, args=(n,))
              for n in range(len(plans))]
        for t in ts:
            t.start()
        for t in ts:
            t.join(40)
    finally:
        sys.setswitchinterval(before)
    ctx.eq(errors, [], 'exception in a thread', 'threads:exception')
    log = Log()
    switches = 0
    for n, rows in enumerate(results):
        ctx.eq(len(rows), len(plans[n]), 'lost work', 'threads:lost')
        for k, data, blob, back in rows:
            log.add(0, 0, k.pub, blob)
            ctx.eq(back, data, 'decryption in a thread', 'threads:decrypt')
            ctx.eq(ref.ecies_decrypt(blob, k.priv), data,
                   'cipher text does not open', 'mixup')
    n = log.judge(ctx, None)
    switches = len({r[3] for r in log.rows})
    ctx.event('thread runs')
    ctx.distinct(len(plans), len(keys), timeout, switches)


SCENARIOS = [
    Scenario('history', history, 700, 14000, need={
        'encryptions': 4000, 'histories past a timeout': 100,
        'wrong key': 1000, 'ephemeral keys': 500}),
    Scenario('shortcut_history', shortcut_history, 40, 800, need={
        'encryptions': 300}),
    Scenario('eviction', eviction, 8, 80, need={'recipients': 2000},
             max_s=120),
    Scenario('threads', threads, 160, 3000, need={'thread runs': 60},
             max_s=120),
]
