"""Hello: who is let in, by version."""
import re

import golem_messages
from golem_messages import exceptions, shortcuts
from golem_messages.message import base

from gm import gen, ref
from gm.core import Scenario
from gm.crowd import crowd

PROPERTY = 'C12'
VARIANTS = [{'GM_VERSION': v} for v in (
    '2.24.3', '2.24.0', '1.0.99', '2.24.1-rc.2', '10.9.5+dev5.78df3e12',
    '2.23.0', '3.24.3', '2.24.0-rc.1')]
RULE = ('A case sends Hello frames (from this library, or with a forged'
        ' version trailer) to a library of one of eight versions and compares'
        ' admission to the rule "same major and minor, not a pre-release of'
        ' x.y.0". Distinct: (our version, their version, signed, recipient).')
OURS = golem_messages.__version__
SEMVER = re.compile(
    r'(0|[1-9]\d*)\.(0|[1-9]\d*)\.(0|[1-9]\d*)'
    r'(?:-((?:0|[1-9]\d*|\d*[a-zA-Z-][0-9a-zA-Z-]*)'
    r'(?:\.(?:0|[1-9]\d*|\d*[a-zA-Z-][0-9a-zA-Z-]*))*))?'
    r'(?:\+([0-9a-zA-Z-]+(?:\.[0-9a-zA-Z-]+)*))?', re.ASCII)
# a release candidate x.y.0-rc talks to nobody, not even to itself
DEGENERATE = bool(re.fullmatch(r'\d+\.\d+\.0-.*', OURS))


def admitted(ours, theirs):
    o, t = SEMVER.fullmatch(ours), SEMVER.fullmatch(theirs)
    if not t:
        return False
    if o.group(1, 2) != t.group(1, 2):
        return False
    return not (t.group(3) == '0' and t.group(4))


def candidates(rng):
    major, minor, patch = (int(x) for x in SEMVER.fullmatch(OURS).group(
        1, 2, 3))
    ma = rng.choice([major] * 5 + [major + 1, max(major - 1, 0), 0, 1, 2,
                                   major * 10, 24])
    mi = rng.choice([minor] * 5 + [minor + 1, max(minor - 1, 0), 0,
                                   minor * 10 + 1, minor // 10, 99])
    pa = rng.choice([0, 0, 1, 2, 3, patch, patch + 1, 99, 10**6])
    v = '%d.%d.%d' % (ma, mi, pa)
    r = rng.random()
    if r < 0.2:
        v += rng.choice(['-rc.1', '-alpha', '-0', '-a.b.c', '-rc1-x'])
    if 0.1 < r < 0.35:
        v += rng.choice(['+b', '+dev5.78df', '+0.1'])
    return v


MALFORMED = ['', '2', '%s.%s', 'latest', 'v' + OURS, OURS + '.1',
             ' ' + OURS, OURS + ' ', '2.24.x', '02.24.3', '2.24.03', '-1.0.0',
             '2,24,3', '\xff\xfe', 'None', '2.24.3-', '2.24.3+', '2.24.3_1',
             '2.24.3-rc..1', '2.24.3-01', '*', '2.*', '>=0.0.0', '==' + OURS,
             'a' * 31, '2.24.3é'] + [
    OURS + x for x in ('\n', '-a\n', '+b\n', '\r\n', '\0', '\t', '\v')
] + ['\n' + OURS, OURS.replace('.', '.\n', 1)]
FOREIGN = [OURS[:-1] + chr(0x660 + int(OURS[-1])),
           OURS.replace('2', '\uff12', 1)] if OURS[-1].isdigit() else []


def hello(ctx):
    rng = ctx.rng
    maker = gen.Maker(rng, ts=rng.randint(1500000000, 1900000000))
    return maker, maker.make(0)


def frames(ctx):
    rng = ctx.rng
    maker, msg = hello(ctx)
    cast = maker.cast
    signed = rng.random() < 0.6
    payload = ref.cbor_enc(gen.plain_slots(msg))
    for theirs in [candidates(rng) for _ in range(6)] + rng.sample(
            MALFORMED, 4):
        raw = theirs.encode('latin-1', 'replace')
        if len(raw) > 31:
            continue
        sig = ref.sign(cast.provider.priv, ref.content_hash(
            0, msg.timestamp, payload, theirs)) if signed else ref.ZERO_SIG
        wire = ref.frame(0, msg.timestamp, False, sig, payload)[:-32] \
            + bytes([len(raw)]) + raw + bytes(31 - len(raw))

        def call():
            return shortcuts.load(
                wire, cast.requestor.priv,
                cast.provider.pub if signed else None, check_time=False)
        ok = admitted(OURS, theirs)
        if DEGENERATE and ok:
            continue
        if ok:
            try:
                got = call()
            except exceptions.VersionMismatchError:
                ctx.fail('%s refuses %s' % (OURS, theirs), 'refused')
            ctx.eq(gen.content(got), gen.content(msg), 'content', 'content')
            ctx.event('admitted')
            if signed:
                exchanged(ctx, wire, theirs, cast)
        else:
            e = ctx.raises(exceptions.MessageError, call,
                           '%s admits %r' % (OURS, theirs), 'admitted')
            ctx.check(isinstance(e, exceptions.VersionMismatchError),
                      'reported as %r' % e, 'admitted:kind')
            ctx.event('turned away')
        ctx.distinct(OURS, theirs, signed)
    ctx.sample((OURS, theirs))


def exchanged(ctx, wire, theirs, cast):
    """Any other admitted version in place of the signed one."""
    bare = theirs.partition('+')[0]
    for other in {theirs.swapcase(), theirs.upper(), bare, bare + '+z',
                  theirs + '0', theirs + ('.z' if '+' in theirs else '+a')}:
        if other == theirs or len(other) > 31 or not admitted(OURS, other):
            continue
        raw = other.encode()
        bad = wire[:-32] + bytes([len(raw)]) + raw + bytes(31 - len(raw))
        ctx.raises(exceptions.InvalidSignature, lambda: shortcuts.load(
            bad, cast.requestor.priv, cast.provider.pub, check_time=False),
            '%r signed, %r announced' % (theirs, other), 'trailer')
        ctx.event('version exchanged')


def functions(ctx):
    rng = ctx.rng
    for theirs in [candidates(rng) for _ in range(20)] + rng.sample(
            MALFORMED, 8) + FOREIGN:
        ok = admitted(OURS, theirs)
        if DEGENERATE and ok:
            continue
        if ok:
            base.verify_version(theirs)
            ctx.event('admitted')
        else:
            ctx.raises(exceptions.VersionMismatchError,
                       lambda: base.verify_version(theirs),
                       '%s admits %r' % (OURS, theirs), 'admitted')
            ctx.event('turned away')
        ctx.distinct(OURS, theirs)
    ctx.raises(exceptions.VersionMismatchError,
               lambda: base.verify_version(None), 'None', 'admitted')


def own(ctx):
    """Our own Hello carries our version and is understood by ourselves; a
    trailer that was exchanged breaks the signature even between compatible
    versions."""
    rng = ctx.rng
    maker, msg = hello(ctx)
    cast = maker.cast
    wire = shortcuts.dump(msg, cast.provider.priv,
                          rng.choice([None, cast.requestor.pub]))
    raw = OURS.encode()
    ctx.eq(wire[-32:], bytes([len(raw)]) + raw + bytes(31 - len(raw)),
           'version trailer', 'trailer')
    ctx.event('sent')
    if DEGENERATE:
        try:
            shortcuts.load(wire, None, cast.provider.pub, check_time=False)
        except exceptions.VersionMismatchError:
            ctx.fail('%s refuses its own Hello' % OURS,
                     'own Hello of a pre-release x.y.0')
    got = shortcuts.load(wire, cast.requestor.priv, cast.provider.pub,
                         check_time=False)
    ctx.eq(gen.describe(got), gen.describe(msg), 'content', 'content')
    ctx.event('admitted')
    for theirs in ('%s.%s.77' % SEMVER.fullmatch(OURS).group(1, 2),
                   OURS + 'x' if '+' in OURS else OURS + '+x'):
        if not admitted(OURS, theirs) or len(theirs) > 31:
            continue
        fake = theirs.encode()
        bad = wire[:-32] + bytes([len(fake)]) + fake + bytes(31 - len(fake))
        ctx.raises(exceptions.InvalidSignature, lambda: shortcuts.load(
            bad, None, cast.provider.pub, check_time=False),
            'exchanged trailer', 'trailer')
        shortcuts.load(bad, None, None, check_time=False)
        ctx.event('trailer exchanged')
    # too short for a trailer
    cut = rng.randrange(77, 108)
    ctx.raises(exceptions.MessageError, lambda: shortcuts.load(
        wire[:cut], None, cast.provider.pub, check_time=False),
        'cut to %d bytes' % cut, 'cut')
    ctx.distinct(OURS, cut)


SCENARIOS = [
    Scenario('frames', frames, 250, 6000, need={
        'admitted': 2000, 'turned away': 2000,
        'version exchanged': 300}),
    Scenario('functions', functions, 150, 3000, need={
        'admitted': 3000, 'turned away': 3000}),
    Scenario('own', own, 60, 1000, need={
        'sent': 300, 'admitted': 250, 'trailer exchanged': 300}),
    Scenario('crowd', crowd(functions), 32, 1200, need={
        'crowds': 16, 'switches': 20}, max_s=120),
]
