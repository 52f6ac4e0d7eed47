"""Header sanity: what never gets past the first eleven bytes."""
import struct

from golem_messages import datastructures, exceptions, shortcuts
from golem_messages.message import base

from gm import gen, ref, spec
from gm.core import Scenario
from gm.crowd import crowd

PROPERTY = 'C10'
RULE = ('A case presents frames with chosen or random (type, timestamp, flag)'
        ' headers, or too short ones, to the decoder with a recording'
        ' decryption function. Distinct: (kind of defect, type bucket,'
        ' timestamp bucket, flag).')
TYPE_IDS = sorted(spec.TYPES)
KNOWN = set(TYPE_IDS)
BAD_TS = [0, 1, 599, 2**31 - 1 - 10**9, gen.MIN_TS, gen.MIN_TS - 1,
          gen.MIN_TS - 3600, gen.MIN_TS - 19800, gen.MIN_TS - 28800,
          gen.MIN_TS - 86400, gen.MAX_TS, gen.MAX_TS + 1,
          gen.MAX_TS + 28800, gen.MAX_TS + 3600, gen.MAX_TS + 86400, 2**40,
          2**63 - 1, 2**63, 2**64 - 1]
GOOD_TS = [gen.MIN_TS + 1, gen.MIN_TS + 2, gen.MIN_TS + 3600, gen.MAX_TS - 1,
           gen.MAX_TS - 2, gen.MAX_TS - 3600, 2**31 - 1, 2**31, 2**32,
           gen.MAX_TS - 28800, gen.MIN_TS + 28800, 1500000000]


class Recorder:
    def __init__(self, answer=b'\x80'):
        self.calls = []
        self.answer = answer

    def __call__(self, payload):
        self.calls.append(payload)
        return self.answer


def bad_type(rng):
    if rng.random() < 0.3:
        # a known one with a single bit changed
        t = rng.choice(TYPE_IDS) ^ 1 << rng.randrange(16)
        if t not in KNOWN:
            return t
    while True:
        t = rng.choice([4, 5, 999, 1000, 1018, 1099, 2000, 2005, 2030 + 1,
                        2999, 3000, 3006, 3007, 3011, 4002, 4003, 4023, 65535,
                        rng.getrandbits(16), rng.choice(TYPE_IDS) + 1,
                        rng.choice(TYPE_IDS) ^ 256])
        if t not in KNOWN and t < 65536:
            return t


def good_ts(rng):
    return rng.choice(GOOD_TS) if rng.random() < 0.5 else \
        rng.randint(gen.MIN_TS + 1, gen.MAX_TS - 1)


def bad_ts(rng):
    if rng.random() < 0.4:
        # a good one with a single high bit set
        return good_ts(rng) | 1 << rng.randrange(35, 64)
    if rng.random() < 0.7:
        return rng.choice(BAD_TS)
    return rng.choice([rng.randint(0, gen.MIN_TS),
                       rng.randint(gen.MAX_TS, 2**64 - 1)])


def tail(rng, n=None):
    n = rng.randrange(1, 120) if n is None else n
    return bytes(rng.getrandbits(8) for _ in range(n))


def refused(ctx, raw, what, mechanism, kind=exceptions.HeaderError):
    rng = ctx.rng
    rec = Recorder()
    sender = rng.choice([None, ref.pub(gen.key(rng).priv)])
    check_time = rng.random() < 0.2
    e = ctx.raises(exceptions.MessageError,
                   lambda: base.Message.deserialize(
                       raw, rec, check_time, sender), what, mechanism,
                   raw=raw)
    ctx.check(isinstance(e, kind), 'reported as %r' % e, mechanism + ':kind')
    ctx.eq(rec.calls, [], 'decryption attempted', mechanism + ':decrypted')
    e2 = ctx.raises(exceptions.MessageError,
                    lambda: shortcuts.load(raw, None, sender, check_time),
                    what, mechanism, raw=raw)
    ctx.check(isinstance(e2, kind), 'reported as %r' % e2,
              mechanism + ':kind')


def headers(ctx):
    rng = ctx.rng
    for _ in range(6):
        flag = rng.randrange(2)
        # unknown type
        t, ts = bad_type(rng), good_ts(rng)
        refused(ctx, ref.frame(t, ts, flag, tail(rng, 65), tail(rng)),
                'type %d' % t, 'type')
        ctx.event('unknown type')
        ctx.distinct('type', t)
        # impossible time
        t, ts = rng.choice(TYPE_IDS), bad_ts(rng)
        refused(ctx, ref.frame(t, ts, flag, tail(rng, 65), tail(rng)
                               + bytes(32)),
                'timestamp %d' % ts, 'timestamp')
        ctx.event('impossible time')
        ctx.distinct('ts', ts if ts in BAD_TS else ts.bit_length(), flag)
    # exact parsing
    for t, ts, flag in ((rng.choice(TYPE_IDS), good_ts(rng),
                         rng.randrange(2)) for _ in range(4)):
        raw = struct.pack('!HQB', t, ts, flag)
        h = base.Message.deserialize_header(raw)
        ctx.eq(tuple(h), (t, ts, bool(flag)), 'header', 'parse')
        ctx.check(isinstance(h, datastructures.MessageHeader), 'class')
        ctx.eq(tuple(base.Message.unpack_header(raw)), (t, ts, bool(flag)),
               'header', 'parse')
        ctx.event('parsed')
        for n in (0, 1, 10, 12, 22):
            bad = (raw * 2)[:n]
            ctx.raises(exceptions.HeaderError,
                       lambda: base.Message.deserialize_header(bad),
                       '%d bytes' % n, 'length')
    ctx.raises(exceptions.HeaderError,
               lambda: base.Message.deserialize_header(None), 'None',
               'length')


def short(ctx):
    """Frames without a payload."""
    rng = ctx.rng
    type_id = TYPE_IDS[ctx.index % len(TYPE_IDS)]
    maker = gen.Maker(rng, ts=good_ts(rng) if type_id != 2010 else 1500000000)
    msg = maker.make(type_id, **({'sign': False} if type_id == 2002 else {}))
    wire = shortcuts.dump(msg, maker.cast.provider.priv, None)
    for n in sorted({0, 1, 2, 10, 11, 12, 64, 75, 76,
                     rng.randrange(77), rng.randrange(77)}):
        raw = rng.choice([wire[:n], tail(rng, n)])
        refused(ctx, raw, '%d bytes' % n, 'short', exceptions.MessageError)
        ctx.event('short')
        ctx.distinct(type_id, n)
    refused(ctx, None, 'no bytes at all', 'short', exceptions.MessageError)


def accepted(ctx):
    """The other side: everything inside the limits is let through and
    reports the header that was sent."""
    rng = ctx.rng
    type_id = TYPE_IDS[ctx.index % len(TYPE_IDS)]
    t = spec.TYPES[type_id]
    ts = good_ts(rng)
    maker = gen.Maker(rng, ts=ts)
    msg = maker.make(type_id, **({'sign': False} if type_id == 2002 else {}))
    signed, secret = rng.random() < 0.5, rng.random() < 0.5
    wire = shortcuts.dump(msg, maker.cast.provider.priv if signed else None,
                          maker.cast.requestor.pub if secret else None)
    ctx.eq(struct.unpack('!HQB', wire[:11]),
           (type_id, ts, int(secret and t.encrypt)), 'header', 'sent')
    got = shortcuts.load(wire, maker.cast.requestor.priv,
                         maker.cast.provider.pub if signed else None,
                         check_time=False)
    ctx.eq(tuple(got.header), (type_id, ts, secret and t.encrypt), 'header',
           'received')
    ctx.eq(got.timestamp, ts, 'timestamp', 'received')
    ctx.event('accepted')
    ctx.distinct(type_id, ts if ts in GOOD_TS else ts.bit_length())


SCENARIOS = [
    Scenario('headers', headers, 1500, 40000, need={
        'unknown type': 4000, 'impossible time': 4000, 'parsed': 2000}),
    Scenario('short', short, 63 * 6, 63 * 60, need={'short': 1500}),
    Scenario('accepted', accepted, 63 * 12, 63 * 200, need={
        'accepted': 400}),
    Scenario('crowd', crowd(headers, short), 32, 1200, need={
        'crowds': 16, 'switches': 20}, max_s=120),
]
