"""The validators, and how they say what is wrong."""
import collections
import re
import socket

from golem_messages import exceptions, validators

from gm import gen
from gm.core import Scenario
from gm.crowd import crowd

PROPERTY = 'C34'
RULE = ('A case hands one validator a value drawn around the limits of what'
        ' it takes (or of another kind altogether) under some field name,'
        ' positionally or by keyword, and compares the verdict to an own'
        ' definition (regular expressions, inet_pton, arithmetic).'
        ' Distinct: (validator, value, verdict).')
IDENT = r'(?:0|[1-9][0-9]*|[0-9]*[a-zA-Z-][0-9a-zA-Z-]*)'
NUM = r'(?:0|[1-9][0-9]*)'
SEMVER = re.compile(r'%s\.%s\.%s(?:-%s(?:\.%s)*)?(?:\+[0-9A-Za-z-]+'
                    r'(?:\.[0-9A-Za-z-]+)*)?' % (NUM, NUM, NUM, IDENT, IDENT))


class Text(str):
    pass


def kinds(rng):
    """Values of every kind."""
    return rng.choice([
        None, True, False, 0, 1, -1, 5, 65535, 2**64, -2**64, 1.0, 0.0, 1.5,
        float('inf'), '', 'x', '1', ' 1', '\0', 'True', b'', b'x', b'1', [],
        [1], (), (1,), {}, {'a': 1}, {1, 2}, object(), int, 1j, range(2),
        bytearray(b'x'), Text('x'), collections.OrderedDict(a=1)])


def good_ip(v):
    if '.' in v and ':' not in v:
        parts = v.split('.')
        return len(parts) == 4 and all(
            re.fullmatch('0|[1-9][0-9]{0,2}', p) and int(p) < 256
            for p in parts)
    try:
        socket.inet_pton(socket.AF_INET6, v)
    except (OSError, ValueError):
        return False
    return True


def ip_text(rng):
    r = rng.random()
    if r < 0.35:
        return '.'.join(str(rng.choice([0, 1, 9, 10, 99, 100, 127, 192, 254,
                                        255])) for _ in range(4))
    if r < 0.6:
        parts = [str(rng.choice([0, 1, 255, 256, 300, 999, 1000, -1]))
                 for _ in range(rng.choice([1, 2, 3, 4, 4, 4, 5]))]
        return '.'.join(parts)
    if r < 0.8:
        groups = ['%x' % rng.choice([0, 1, 0xff, 0xfff, 0xffff, 0x10000])
                  for _ in range(rng.choice([1, 3, 7, 8, 8, 9]))]
        if rng.random() < 0.5:
            groups[rng.randrange(len(groups))] = ''
        return ':'.join(groups)
    return rng.choice([
        '', ' ', '::', '::1', ':::', '1::2::3', '::ffff:1.2.3.4',
        '::1.2.3.256', 'localhost', '1.2.3.4/24', '1.2.3.4:80', '1.2.3.4 ',
        ' 1.2.3.4', '1.2.3.4\n', '1.2.3.4.', '.1.2.3.4', '1..2.3', '::g',
        '2001:db8::/32', '[::1]', '0x7f.0.0.1', '1.2.3', '12345::',
        '1,2,3,4', 'a.b.c.d', '::1\n', '1.2.3.+4',
        '10.0.0.1%eth0', '10.0.0.1%', '127.0.0.1%lo', '1.2.3.4#', '1.2.3.4;',
        '1.2.3.4?', '1.2.3.4\0', '1.2.3.4 x', '1.2.3.4, 5.6.7.8', '1.2.3.4\t',
        '1.2.3.4:', '01.2.3.4', '1.2.3.04', '1.2.3.4.5', '16909060', '0',
        '1.2.3.\u0664', '\uff11.2.3.4', '1.2.3.4/', '1.2.3.4/32', '1.2.3.4\r',
        '::/0', '::1%%', '::1%a%b', 'fe80::1/64', '[fe80::1]:80', '::1 ',
        ' ::1', '1.2.3.4::', '::1.2.3.4.5', '::ffff:1.2.3', '0::0::0',
        '1:2:3:4:5:6:7', '1:2:3:4:5:6:7:8:9', '1:2:3:4:5:6:1.2.3.4',
        '1:2:3:4:5:6:7:1.2.3.4', '::FFFF', '::fFfF:0', '00000::', '0000::'])


def version_text(rng):
    if rng.random() < 0.5:
        return gen.version_text(rng)
    return rng.choice([
        '', '1', '1.2', '1.2.3.4', '01.2.3', '1.02.3', '1.2.03', 'v1.2.3',
        '1.2.3 ', ' 1.2.3', '1.2.x', '1.2.-3', '-1.2.3', '1.2.3-', '1.2.3+',
        '1.2.3-a..b', '1.2.3-01', '1.2.3-0a', '1.2.3-0', '1.2.3+01', '1.2.3+',
        '1.2.3--', '1.2.3-a+b-c', '1.2.3+b+c', '1.2.3-a_b', '*', '>=1.2.3',
        '1.2.3-rc.1', '0.0.0', '999.999.999', '1.2.3+a..b', 'one', '1.2.3-é',
        '1.2.', '.2.3', '1..3', '1.2.3\n', '1.2.3-a\n', '1.2.3+b\n', '\n1.2.3',
        '1.2.3\r\n', '1.2.\u0663', '\uff11.2.3', '1.2.3-\u0661', '1_0.2.3'])


def is_int(v):
    return isinstance(v, int) and not isinstance(v, bool)


def draw_varchar(rng):
    limit = rng.choice([0, 1, 5, 127, 128, 129, 1000])
    if rng.random() < 0.3:
        return limit, kinds(rng)
    n = max(0, rng.choice([0, 1, limit, limit - 1, limit + 1, limit + 2,
                           2 * limit]))
    text = rng.choice(['x', 'ż', '\U0001f600', '\0', ' ', '\n']) * n
    if n and rng.random() < 0.3:
        text = padded(rng, text)
    return limit, text


def padded(rng, text):
    """As long, but with white space at an end."""
    cut = rng.randrange(1, len(text) + 1)
    space = rng.choice([' ', '\t', '\n', '\0', '\u00a0']) * cut
    return rng.choice([text[cut:] + space, space + text[cut:]])


def varchar(rng):
    limit, v = draw_varchar(rng)
    good = isinstance(v, str) and len(v) <= limit
    if rng.random() < 0.5:
        return ('varchar', v, good, lambda f: validators.validate_varchar(
            f, v, limit))
    return ('varchar', v, good, lambda f: validators.validate_varchar(
        field_name=f, value=v, max_length=limit))


def varchar_endless(rng):
    v = rng.choice(['', 'x' * 5000, kinds(rng)])
    return ('varchar', v, isinstance(v, str),
            lambda f: validators.validate_varchar(
                f, v, max_length=float('infinity')))


def varchar128(rng):
    v = kinds(rng) if rng.random() < 0.3 else \
        rng.choice(['x', 'ż', '\U0001f600']) * rng.choice(
            [0, 1, 127, 128, 129, 130, 256])
    if isinstance(v, str) and v and rng.random() < 0.3:
        v = padded(rng, v)
    return ('varchar128', v, isinstance(v, str) and len(v) <= 128,
            validators.validate_varchar128)


def number(rng):
    r = rng.random()
    if r < 0.35:
        return kinds(rng)
    if r < 0.7:
        return rng.choice([-1, 0, 1, 2, 79, 80, 1023, 65534, 65535, 65536,
                           65537, 131071, 131072, -65535, 2**31, 2**32 + 80])
    return gen.integer(rng)


def integer(rng):
    v = number(rng)
    return 'integer', v, is_int(v), validators.validate_integer


def positive(rng):
    v = number(rng)
    return ('positive_integer', v, is_int(v) and v >= 1,
            validators.validate_positive_integer)


def port(rng):
    v = number(rng)
    return ('port', v, is_int(v) and 1 <= v <= 65535,
            validators.validate_port)


def boolean(rng):
    v = kinds(rng) if rng.random() < 0.6 else rng.random() < 0.5
    return 'boolean', v, v is True or v is False, validators.validate_boolean


def address(rng):
    if rng.random() < 0.15:
        v = rng.choice([None, [], {}, 1.5, object(), (), ['1.2.3.4'],
                        b'1.2.3.4.5'])
        return 'ipaddress', v, False, validators.validate_ipaddress
    v = ip_text(rng)
    return 'ipaddress', v, good_ip(v), validators.validate_ipaddress


def version(rng):
    if rng.random() < 0.2:
        v = kinds(rng)
        if v is None or not isinstance(v, str):
            return 'version', v, False, validators.validate_version
    v = version_text(rng)
    return ('version', v, SEMVER.fullmatch(v) is not None,
            validators.validate_version)


def mapping(rng):
    v = kinds(rng) if rng.random() < 0.7 else gen.mapping(rng)
    return 'dict', v, isinstance(v, dict), validators.validate_dict


def unless(rng):
    v = kinds(rng)
    seen = []
    verdict = rng.choice([True, False, 0, 1, '', 'x', None, [], [0]])

    def check(x):
        seen.append(x)
        return verdict

    def call(f, given=v):
        validators.fail_unless(f, given, check, 'because')
    return 'fail_unless', v, bool(verdict), call


DRAWERS = [varchar, varchar_endless, varchar128, integer, positive, port,
           boolean, address, version, mapping, unless]


def verdicts(ctx):
    rng = ctx.rng
    draw = DRAWERS[ctx.index % len(DRAWERS)]
    name, value, good, call = draw(rng)
    field = rng.choice(['port', 'x', '', 'a field', 'ż'])
    simple = draw not in (varchar, varchar_endless, unless)

    def go():
        if not simple:
            return call(field)
        if rng.random() < 0.5:
            return call(field, value)
        return call(field_name=field, value=value)
    if good:
        ctx.check(go() is None, 'gives something', 'verdict:result')
        ctx.event('oracle')
        ctx.event('accepted ' + name)
    else:
        e = ctx.raises(exceptions.FieldError, go, 'validate_%s(%r)' % (
            name, value), name + ':accepted')
        ctx.check(e.field == field, 'field %r' % (e.field,), 'blame')
        ctx.check(e.value is value, 'value %r' % (e.value,), 'blame')
        ctx.check(isinstance(e, exceptions.MessageError), 'kind', 'blame')
        ctx.check(('[%s:%r]' % (field, value)) in str(e),
                  'str: %s' % e, 'blame:text')
        ctx.event('refused ' + name)
    ctx.distinct(name, repr(value)[:60], good)
    ctx.sample((name, value, good))


def all_small(ctx):
    """Every port, and every small number."""
    lo = ctx.index * 4400 - 200
    for v in range(lo, lo + 4400):
        for name, good, call in (
                ('port', 1 <= v <= 65535, validators.validate_port),
                ('positive_integer', v >= 1,
                 validators.validate_positive_integer),
                ('integer', True, validators.validate_integer)):
            try:
                call('f', v)
                got = True
            except exceptions.FieldError:
                got = False
            if got is not good:
                ctx.fail('validate_%s(%d): %s' % (name, v, got),
                         name + ':' + ('accepted' if got else 'refused'))
    ctx.event('oracle', 13200)
    ctx.event('numbers', 4400)
    ctx.distinct(lo)


def huge(ctx):
    """Integers of more digits than Python agrees to print."""
    rng = ctx.rng
    n = rng.choice([1, -1]) * 10**rng.choice([4298, 4299, 4300, 4301, 9000])
    shape = rng.randrange(3)
    value = [n, [n], {'a': n}][shape]
    for name, call in sorted({
            'integer': validators.validate_integer,
            'positive_integer': validators.validate_positive_integer,
            'port': validators.validate_port,
            'boolean': validators.validate_boolean,
            'ipaddress': validators.validate_ipaddress,
            'version': validators.validate_version,
            'dict': validators.validate_dict,
            'varchar128': validators.validate_varchar128}.items()):
        good = name == 'dict' and shape == 2 or shape == 0 and (
            name == 'integer' or name == 'positive_integer' and n > 0)
        try:
            call('a field', value)
        except exceptions.FieldError as e:
            ctx.check(not good, name + ' refused', name + ':refused')
            ctx.check(e.field == 'a field' and e.value is value, 'blame',
                      'blame')
            try:
                text = str(e)
            except Exception as err:
                ctx.fail('%s of a huge number: error can not be printed: %r'
                         % (name, err), 'blame:text')
            ctx.check('[a field:' in text, 'text', 'blame:text')
            ctx.event('refused huge')
        else:
            ctx.check(good, name + ' accepted', name + ':accepted')
        ctx.event('oracle')
    ctx.distinct(shape, n > 0, len(hex(n)))


E = exceptions
FAMILY = [
    (E.MessageError, RuntimeError), (E.HeaderError, E.MessageError),
    (E.TimestampError, E.HeaderError),
    (E.MessageTooOldError, E.TimestampError),
    (E.MessageFromFutureError, E.TimestampError),
    (E.FieldError, E.MessageError), (E.SerializationError, E.MessageError),
    (E.SignatureAlreadyExists, E.SerializationError),
    (E.CryptoError, E.MessageError), (E.InvalidSignature, E.CryptoError),
    (E.InvalidKeys, E.CryptoError), (E.DecryptionError, E.CryptoError),
    (E.VersionMismatchError, E.MessageError),
    (E.ValidationError, E.MessageError),
    (E.OwnershipMismatch, E.MessageError),
]


def families(ctx):
    for child, parent in FAMILY:
        ctx.check(issubclass(child, parent), '%s is no %s' % (
            child.__name__, parent.__name__), 'family')
    ctx.event('oracle')
    ctx.event('families')
    ctx.distinct('families')


SCENARIOS = [
    Scenario('verdicts', verdicts, 6600, 200000, need=dict(
        [('accepted ' + n, 50) for n in (
            'varchar', 'varchar128', 'integer', 'positive_integer', 'port',
            'boolean', 'ipaddress', 'version', 'dict', 'fail_unless')] +
        [('refused ' + n, 50) for n in (
            'varchar', 'varchar128', 'integer', 'positive_integer', 'port',
            'boolean', 'ipaddress', 'version', 'dict', 'fail_unless')])),
    Scenario('all_small', all_small, 16, 16, need={'numbers': 70000}),
    Scenario('huge', huge, 64, 2000, need={'refused huge': 200}),
    Scenario('families', families, 8, 8, need={'families': 8}),
    Scenario('crowd', crowd(verdicts, each=12), 32, 1200, need={
        'crowds': 16, 'switches': 20}, max_s=120),
]
