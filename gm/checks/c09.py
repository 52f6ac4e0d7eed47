"""Freshness window of load()."""
import os
import time

from golem_messages import exceptions, shortcuts
from golem_messages.message import base

from gm import clock, gen, ref, spec
from gm.core import Inconclusive, Scenario
from gm.crowd import crowd

PROPERTY = 'C09'
RULE = ('A case freezes the clock at some instant between 2011 and 2900 and'
        ' loads frames whose timestamp is a chosen number of seconds away'
        ' from it (edges of the window, multiples of hours and days, other'
        ' centuries), signed / encrypted or not, on hosts east and west of'
        ' Greenwich; or uses the real clock. Distinct: (type, offset, sign'
        ' and encryption, zone).')
TYPE_IDS = sorted(spec.TYPES)
OLD, FUTURE = 600, 300
EDGES = [-601, -600, -599, -602, 299, 300, 301, 302, 0, 1, -1, -300, -301,
         150, -450]
FAR = [-3600, 3600, -7200, -19800, 19800, -28800, 28800, -86400, 86400,
       -43200, 43200, -720, 720, -606, 306, -1200, 600, 601, -900, 900,
       -10**7, 10**7, -86400 - 600, 86400 + 300, 86400 - 60, -86400 + 60,
       2**31, -2**31, 2**32, -3601, -4200, 3900]
EAST_WEST = [-16200 - 3600, -31536000, 31536000]


def expected(delta):
    if delta < -OLD:
        return exceptions.MessageTooOldError
    if delta > FUTURE:
        return exceptions.MessageFromFutureError
    return None


def pick_now(rng):
    kind = rng.random()
    if kind < 0.2:
        # around changes of day, year, century, 32 bit limits, DST changes
        base_ = rng.choice([1325376000, 1456704000, 1582934400, 1603584000,
                            1616893200, 2147483647, 4102444800, 1483228800,
                            4294967295, 1509242400])
        return base_ + rng.randint(-700, 700)
    return rng.randint(1300000000, 2**32 * 6)


def window(ctx):
    rng = ctx.rng
    now = pick_now(rng)
    maker = gen.Maker(rng, ts=now)
    cast = maker.cast
    with clock.frozen(now) as move:
        for i in range(10):
            type_id = TYPE_IDS[(ctx.index * 10 + i) % len(TYPE_IDS)]
            t = spec.TYPES[type_id]
            delta = rng.choice(EDGES) if rng.random() < 0.6 else \
                rng.choice(FAR + EAST_WEST) if rng.random() < 0.8 else \
                rng.randint(-2000, 1000)
            ts = now + delta
            if not gen.MIN_TS < ts < gen.MAX_TS:
                continue
            over = {'sign': False} if type_id == 2002 else {}
            if type_id == 2010:
                over['payment_ts'] = ts
            msg = maker.make(type_id, _ts=ts, **over)
            if type_id == 2002:
                maker.forget_task()
            signed, secret = rng.random() < 0.5, rng.random() < 0.4
            wire = shortcuts.dump(msg, cast.provider.priv if signed else None,
                                  cast.requestor.pub if secret else None)
            args = (wire, cast.requestor.priv,
                    cast.provider.pub if signed else None)
            want = expected(delta)
            call = rng.choice([
                lambda: shortcuts.load(*args),
                lambda: shortcuts.load(*args, check_time=True),
                lambda: shortcuts.load(*args, True)])
            if not msg.encrypted and rng.random() < 0.3:
                # nothing to decrypt, so no way to do it is needed
                call = lambda: base.Message.deserialize(    # noqa
                    wire, None, sender_public_key=args[2])
                ctx.event('no key')
            judge(ctx, call, want, delta, t, msg)
            got = shortcuts.load(*args, check_time=False)
            ctx.eq(gen.describe(got), gen.describe(msg),
                   'not loaded with the time check off', 'check off')
            ctx.distinct(type_id, delta if delta in EDGES or delta in FAR
                         else delta // 100, signed, secret,
                         os.environ.get('TZ'))
            # the same frame as time goes by
            if rng.random() < 0.3:
                for later in rng.sample([1, 60, 299, 300, 599, 600, 601, 900,
                                         901, 86400], 3):
                    move(now + later)
                    judge(ctx, lambda: shortcuts.load(*args),
                          expected(delta - later), delta - later, t, msg)
                move(now)
    ctx.sample((now, os.environ.get('TZ')))


def judge(ctx, call, want, delta, t, msg):
    mech = 'too old' if delta < -OLD else 'future' if delta > FUTURE \
        else 'fresh'
    if want is None:
        try:
            got = call()
        except exceptions.MessageError as e:
            ctx.fail('%s from %+d s refused: %r' % (t.name, delta, e), mech)
        ctx.eq(gen.describe(got), gen.describe(msg), 'content', 'content')
        ctx.event('accepted')
    else:
        e = ctx.raises(exceptions.MessageError, call,
                       '%s from %+d s' % (t.name, delta), mech)
        ctx.check(isinstance(e, want), 'reported as ' + repr(e),
                  mech + ':kind')
        ctx.event(mech)
    if delta in (-600, -601, 300, 301):
        ctx.event('edge')


def fractions(ctx):
    """Clock readings with a fraction; a second or more off the edges."""
    rng = ctx.rng
    now = pick_now(rng)
    with clock.frozen(now + rng.choice([0.001, 0.25, 0.5, 0.999])):
        for delta in (-602, -601, -599, -598, 298, 299, 300, 302, 303):
            want = expected(delta)
            call = lambda: base.verify_time(now + delta)    # noqa
            if want is None:
                ctx.eq(call(), None, 'result', 'fresh')
            else:
                e = ctx.raises(exceptions.TimestampError, call,
                               '%+d s' % delta, 'fraction')
                ctx.check(isinstance(e, want), 'kind: %r' % e, 'fraction')
            ctx.event('decided')
        for junk in (None, 'now', 10**20, -10**20, float('nan'),
                     float('inf'), [], b'1', 1e300):
            ctx.raises(exceptions.TimestampError,
                       lambda: base.verify_time(junk),
                       'timestamp %r' % (junk,), 'junk')
            ctx.event('junk')
    ctx.distinct(now % 1000)


def nested(ctx):
    """Only the outer message has to be fresh."""
    rng = ctx.rng
    now = pick_now(rng)
    chain = [t for t in TYPE_IDS if spec.TYPES[t].msgs]
    type_id = chain[ctx.index % len(chain)]
    age = rng.choice([601, 900, 86400, 10**7])
    if now - age <= gen.MIN_TS:
        now += 10**8
    maker = gen.Maker(rng, ts=now - age)
    with clock.frozen(now):
        msg = maker.make(type_id, _ts=now, **(
            {'sign': False} if type_id == 2002 else
            {'payment_ts': now} if type_id == 2010 else {}))
        wire = shortcuts.dump(msg, maker.cast.provider.priv, None)
        got = shortcuts.load(wire, None, maker.cast.provider.pub)
        ctx.eq(gen.describe(got), gen.describe(msg), 'content', 'nested')
        ctx.event('accepted')
    ctx.distinct(type_id, age)


def real_clock(ctx):
    """No frozen clock: what this host sends now is fresh; what it would have
    sent a while ago or later is not, whatever the time zone."""
    rng = ctx.rng
    cast = gen.Cast(rng)
    before = int(time.time())
    cls = gen.cls_of(rng.choice([1001, 1003, 2028, 4022, 3002]))
    msg = cls()
    after = int(time.time())
    ctx.check(before - 1 <= msg.timestamp <= after + 1,
              'timestamp of a new message is %+d s from now' % (
                  msg.timestamp - before), 'stamp')
    wire = shortcuts.dump(msg, cast.provider.priv, None)
    got = shortcuts.load(wire, cast.requestor.priv, cast.provider.pub)
    ctx.eq(got.timestamp, msg.timestamp, 'timestamp', 'stamp')
    ctx.event('accepted')
    for delta in (-3600, -19800, 28800, -28800, 19800, 3600, -640, -680, 330,
                  -560, -590, 250, 290):
        raw = ref.frame(1001, before + delta, False, ref.ZERO_SIG,
                        b'\x80', None)
        want = expected(delta)
        e = None
        try:
            shortcuts.load(raw, None, None)
        except exceptions.MessageError as error:
            e = error
        if not 0 <= time.time() - before < 8:
            raise Inconclusive  # this machine took too long
        ctx.check((want is None) == (e is None), '%+d s: %r' % (delta, e),
                  'real')
        if want is not None:
            ctx.check(isinstance(e, want), 'kind: %r' % e, 'real')
        ctx.event('decided')
    ctx.distinct(cls.__name__, os.environ.get('TZ'))


SCENARIOS = [
    Scenario('window', window, 900, 20000, need={
        'accepted': 1500, 'too old': 500, 'future': 500, 'edge': 600}),
    Scenario('fractions', fractions, 240, 3000, need={
        'decided': 1000, 'junk': 1000}),
    Scenario('nested', nested, 33 * 8, 33 * 80, need={'accepted': 150}),
    Scenario('real_clock', real_clock, 160, 1500, need={
        'accepted': 80, 'decided': 1000}),
    Scenario('crowd', crowd(real_clock), 32, 1200, need={
        'crowds': 16, 'switches': 20}, max_s=120),
]
