"""Times and amounts the parties agree on."""
import datetime
import fractions

from golem_messages import constants, helpers, settings
from golem_messages.message import concents

from gm import gen, spec
from gm.core import Scenario
from gm.crowd import crowd

PROPERTY = 'C27'
RULE = ('A case computes a download time, a verification time or deposits for'
        ' sizes, rates, prices and deadlines drawn around their limits and'
        ' compares them to exact integer arithmetic; the constants are'
        ' compared to the protocol\'s. Distinct: (formula, arguments).')
SECOND = datetime.timedelta(seconds=1)


def seconds(td):
    return fractions.Fraction(td // datetime.timedelta(microseconds=1),
                              10**6)


def ceil_div(a, b):
    return -(-a // b)


def a_size(rng, rate):
    block = rate << 10
    # a petabyte at most: the quotient is exact in double precision
    k = min(2**50 // block, rng.choice([0, 1, 2, 100, 10**6]))
    return max(0, rng.choice([
        0, 1, block * k, block * k + 1, block * k - 1, rng.getrandbits(30),
        rng.getrandbits(45), 2**40]))


def download(ctx):
    rng = ctx.rng
    rate = rng.choice([48, 48, 1, 2, 47, 1000, 2**20, 2**20 + 1, 2**21, 10**7,
                       2**31, rng.randint(1, 10**4), rng.getrandbits(40) + 1])
    size = a_size(rng, rate)
    want = 60 + ceil_div(size, rate << 10)
    if rate == 48 and rng.random() < 0.5:
        got = helpers.maximum_download_time(size)
    elif rng.random() < 0.5:
        got = helpers.maximum_download_time(size, rate)
    else:
        got = helpers.maximum_download_time(size=size, rate=rate)
    ctx.check(isinstance(got, datetime.timedelta), 'type', 'download')
    ctx.eq(seconds(got), want, 'maximum_download_time(%d, %d)' % (
        size, rate), 'download')
    ctx.event('computed')
    ctx.distinct(size, rate)


def verification(ctx):
    rng = ctx.rng
    maker = gen.Maker(rng, sign='none', ts=rng.randint(1300000000,
                                                       1900000000))
    size = a_size(rng, 48)
    rct = maker.make(2004, size=size)
    ttc = maker.ttc()
    timeout = rng.choice([0, 1, 2, 60, 3599, 86400, -60, 31536000, 15552000,
                          rng.randint(0, 2 * 10**7),
                          rng.randint(0, 10**6), rng.randint(-100, 10**4)])
    late = rng.choice([0, 0, 1, 3600])      # the report comes later
    h = rct.header
    rct.header = type(h)(h.type_, h.timestamp + late, h.encrypted)
    ttc.compute_task_def['deadline'] = ttc.timestamp + timeout + (
        0.5 if rng.random() < 0.1 else 0)
    for _ in range(3):
        timeout = fractions.Fraction(
            ttc.compute_task_def['deadline'] - ttc.timestamp)
        got = helpers.subtask_verification_time(rct)
        want = 4 * 240 + 3 * (60 + ceil_div(size, 48 << 10)) + timeout / 2
        ctx.check(isinstance(got, datetime.timedelta), 'type',
                  'verification')
        ctx.eq(seconds(got), want, 'subtask_verification_time(size %d, '
               'timeout %s)' % (size, timeout), 'verification')
        ctx.event('computed')
        # and again, something having changed
        kind = rng.randrange(3)
        if kind == 0:
            ttc.compute_task_def['deadline'] += rng.choice([1, 2, 1000])
        elif kind == 1:
            rct.size = size = a_size(rng, 48)
        else:
            h = ttc.header
            ttc.header = type(h)(h.type_, h.timestamp + rng.choice(
                [1, -2, 3600]), h.encrypted)
    ctx.distinct(size, timeout)
    ctx.sample((size, str(timeout), str(got)))


def deposits(ctx):
    rng = ctx.rng
    price = rng.choice([0, 1, 2**64, 2**256, 10**18, rng.getrandbits(90)])
    ctx.eq(helpers.requestor_deposit_amount(price), (2 * price, 4 * price),
           'requestor\'s deposit for %d' % price, 'deposit:requestor')
    ctx.eq(helpers.provider_deposit_amount(price), (price, 4 * price),
           'provider\'s deposit for %d' % price, 'deposit:provider')
    ctx.eq(helpers.requestor_deposit_amount(total_task_price=price),
           (2 * price, 4 * price), 'requestor', 'deposit:requestor')
    ctx.eq(helpers.provider_deposit_amount(subtask_price=price),
           (price, 4 * price), 'provider', 'deposit:provider')
    ctx.event('computed')
    ctx.distinct(price)


CONSTANTS = [
    ('MMTT', 5), ('MTD', 10), ('MAT', 135), ('MAX_CONCENT_PING_INTERVAL', 60),
    ('CMT', 240), ('FAT', 960), ('AVCT', 1680), ('PDT', 43200),
    ('DOWNLOAD_LEADIN_TIME', 60)]
SETTINGS = [('MSG_TTL', 600), ('FUTURE_TIME_TOLERANCE', 300),
            ('PAYMENT_TIMESTAMP_TOLERANCE', 900)]


def fixed(ctx):
    for module, names in ((constants, CONSTANTS), (settings, SETTINGS)):
        for name, want in names:
            ctx.eq(seconds(getattr(module, name)), want, name,
                   'constant:' + name)
    ctx.eq(constants.DEFAULT_UPLOAD_RATE, 48, 'DEFAULT_UPLOAD_RATE',
           'constant:rate')
    # midnight UTC, whatever the local time zone
    ctx.eq((settings.MIN_TIMESTAMP, settings.MAX_TIMESTAMP),
           (1262304000, 32819212800), 'timestamps allowed',
           'constant:timestamps')
    for type_id in sorted(spec.TYPES):
        cls = gen.cls_of(type_id)
        ctx.eq(seconds(constants.MSG_DELAYS[cls]),
               145 if cls is concents.ForceReportComputedTask else 0,
               'delay of ' + cls.__name__, 'constant:delay')
        ctx.distinct(type_id)
    ctx.event('constants')


SCENARIOS = [
    Scenario('download', download, 800, 30000, need={'computed': 800}),
    Scenario('verification', verification, 400, 12000,
             need={'computed': 400}),
    Scenario('deposits', deposits, 100, 1000, need={'computed': 100}),
    Scenario('fixed', fixed, 8, 8, need={'constants': 8}),
    Scenario('crowd', crowd(download, verification), 32, 1200, need={
        'crowds': 16, 'switches': 20}, max_s=120),
]
