"""Structured damage: CBOR-able junk put anywhere into a decoded payload."""
import math

JUNK = [
    None, True, False, 0, 1, -1, 2, 255, 2**31, 2**63, 2**64, -2**63, -2**70,
    1.5, -0.0, math.inf, 1e308, '', 'x', '0x', '0', 'None', 'ab' * 32,
    'ab' * 64, 'zz' * 64, 'a' * 129, 'a' * 5000, '127.0.0.1', '::1',
    '2.24.3', 'uuid', '00000000-0000-0000-0000-000000000000', '\0', 'ż\U0001f600',
    b'', b'\0', b'\0' * 32, b'\xff' * 64, b'\0' * 65, b'x' * 5000,
    [], [[]], [None], [0], [[], []], ['a', 'b'], [['a', 1]], [['sig', 1]],
    [['header', None]], [False, None], [True, None], [True, []], [False, []],
    [False, [None, None, None]], [True, [None]], [0, 0], [1, 2, 3],
    {}, {'a': 1}, {'': ''}, {1: 2}, {b'x': 1}, {None: None},
    {'task_id': 'x'}, {'key': 5}, {'category': 'results'},
    [[2002, 1500000000, False], b'\0' * 65, []],
    [False, [[2002, 1500000000, False], b'\0' * 65, []]],
    [True, [[[1007, 1500000000, False], None, []]]],
    [False, [[], None, None]], [False, [[1, 2], b'', {}]],
    [False, [['a', 'b', 'c'], 'sig', {'a': 'b'}]],
    [False, [[2001, None, None], 5, None]],
]
DEEP = []
for _ in range(60):
    DEEP = [DEEP]


def paths(v, p=()):
    yield p
    if isinstance(v, list):
        for i, x in enumerate(v):
            yield from paths(x, p + (i,))
    elif isinstance(v, dict):
        for k, x in v.items():
            yield from paths(x, p + (k,))


def put(v, p, x):
    if not p:
        return x
    if isinstance(v, list):
        v = list(v)
        v[p[0]] = put(v[p[0]], p[1:], x)
        return v
    v = dict(v)
    v[p[0]] = put(v[p[0]], p[1:], x)
    return v


def get(v, p):
    for k in p:
        v = v[k]
    return v


def damage(rng, v):
    """(damaged copy, kind of damage)"""
    ps = list(paths(v))
    p = rng.choice(ps)
    kind = rng.choice(['junk', 'junk', 'junk', 'move', 'drop', 'dup', 'deep'])
    if kind == 'junk' or not p:
        return put(v, p, rng.choice(JUNK)), 'junk'
    if kind == 'move':
        return put(v, p, get(v, rng.choice(ps))), kind
    if kind == 'deep':
        return put(v, p, DEEP), kind
    parent = get(v, p[:-1])
    if isinstance(parent, list):
        parent = list(parent)
        if kind == 'drop':
            del parent[p[-1]]
        else:
            parent.insert(p[-1], parent[p[-1]])
    else:
        parent = dict(parent)
        x = parent.pop(p[-1])
        if kind == 'dup':
            parent[str(p[-1]) + '_'] = x
            parent[p[-1]] = x
    return put(v, p[:-1], parent), kind
