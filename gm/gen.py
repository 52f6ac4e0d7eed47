"""Seeded generators: keys, containers and messages of every type.

Everything is built through the public constructors of the library; every
random choice comes from the given random.Random.
"""
import enum
import time
import uuid

import golem_messages
from golem_messages import datastructures
from golem_messages.datastructures import masking
from golem_messages.datastructures import p2p as dt_p2p
from golem_messages.datastructures import stats as dt_stats
from golem_messages.datastructures import tasks as dt_tasks
from golem_messages.message import base, concents, p2p, resources, tasks

from gm import ref, spec

MODULES = {'base': base, 'p2p': p2p, 'tasks': tasks, 'concents': concents,
           'resources': resources}

MIN_TS = 1262304000     # 2010-01-01T00:00:00Z
MAX_TS = 32819212800     # 3010-01-01T00:00:00Z

SPECIAL_KEYS = [bytes.fromhex(h.zfill(64)) for h in (
    '1', '2', '3', 'ff' * 16, '01' + '00' * 31,
    'fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364140',
    # public key starts with b'0x'
    '40e032003bbd003ae4b60147ed65c3b15a554f6e07d4d98927522b957805941f',
    # x starts 00 / 0000, y starts 00
    '5079e1d65a8aec9feffa41eb634c305d77e96a0d93b90dcb54d49c9b77bf1bba',
    'b0ee68a68867b37c75d87e2fa4df2402a9ff8decca40cdbc283ba7e42d7044ec',
    '9c46199259d4697fd541da5610c5ab83389bc3dcee3ab808b898a70cc9d35f16',
    # public key starts 04 / ffff
    '53b97377b34e8ece7e9ee51d9212824c83c8cb28eb4ed2e3895e8b6b263cfa5e',
    'c13017486239aa4599021de7f8a799c6947dbee4bc8388dddf805c57120e034b',
    # address starts with a zero byte
    'fe182a5de4dc316d6e530357386834e85b5229408fa817a1c1896ad2f0c9f873',
)]


def cls_of(type_id):
    module, name = spec.TYPES[type_id].name.split('.')
    return getattr(MODULES[module], name)


def enum_class(type_id, slot):
    cls = cls_of(type_id)
    return getattr(cls, {'reason': 'REASON', 'operation': 'Operation',
                         'origin': 'Origin', 'recipient_type': 'Actor'}[slot])


class Key:
    def __init__(self, priv):
        self.priv = priv
        self.pub = ref.pub(priv)
        self.hex = self.pub.hex()
        self.address = ref.address(self.pub)

    def __repr__(self):
        return 'Key(%s)' % self.priv.hex()


_key_cache = {}


def key(rng, special=0.3):
    if rng.random() < special:
        priv = rng.choice(SPECIAL_KEYS)
        if priv not in _key_cache:
            _key_cache[priv] = Key(priv)
        return _key_cache[priv]
    while True:
        n = rng.getrandbits(256)
        if rng.random() < 0.1:
            n >>= rng.choice([8, 16, 64])
        if 0 < n < ref.N:
            return Key(n.to_bytes(32, 'big'))


def distinct_keys(rng, n, special=0.3):
    out = []
    while len(out) < n:
        k = key(rng, special)
        if all(k.priv != o.priv for o in out):
            out.append(k)
    return out


class Cast:
    ROLES = ('provider', 'requestor', 'concent', 'requestor_eth',
             'provider_eth', 'other')

    def __init__(self, rng, special=0.3):
        self.keys = dict(zip(self.ROLES, distinct_keys(rng, 6, special)))
        for role, k in self.keys.items():
            setattr(self, role, k)


# --- plain values ------------------------------------------------------------

INTS = [0, 1, -1, 2, 23, 24, 255, 256, -256, 65535, 65536, 2**31 - 1, 2**31,
        2**32 - 1, 2**32, -2**31, 2**63 - 1, 2**63, 2**64 - 1, -2**63,
        -2**64 - 1, -2**64, -2**63 - 1, 2**64, 2**80, -2**90, 10**30]
FLOATS = [0.0, 0.5, -1.25, 1e300, 5e-324, 3.141592653589793, 1e15, -0.1]
STRS = ['', 'a', '0', 'None', 'żółć', '\u4e2d\u6587', '\U0001f600x', 'a\0b',
        'x' * 23, 'x' * 24, 'y' * 255, 'z' * 256, ' lead', 'new\nline',
        '0xdeadbeef', 'true', '\ufeff', 'e\u0301']
BYTES = [b'', b'\0', b'\xff' * 3, b'a' * 23, b'b' * 24, b'c' * 255,
         b'd' * 256, bytes(range(256)), b'\xf6', b'\x80']


def text(rng, limit=40):
    if rng.random() < 0.4:
        return rng.choice(STRS)[:limit]
    alphabet = 'abcdefXYZ0189_-/. ąß漢\U0001f680'
    return ''.join(rng.choice(alphabet)
                   for _ in range(rng.randrange(min(limit, 30) + 1)))


def integer(rng, lo=None, hi=None):
    if lo is None:
        return rng.choice(INTS) if rng.random() < 0.5 else \
            rng.getrandbits(rng.choice([4, 8, 16, 33, 63]))
    pool = [lo, hi, lo + 1 if lo < hi else lo, hi - 1 if lo < hi else hi]
    return rng.choice(pool) if rng.random() < 0.4 else rng.randint(lo, hi)


def scalar(rng):
    kind = rng.randrange(7)
    if kind == 0:
        return None
    if kind == 1:
        return rng.random() < 0.5
    if kind == 2:
        return integer(rng)
    if kind == 3:
        return rng.choice(FLOATS) if rng.random() < 0.5 else rng.random() * 1e6
    if kind == 4:
        return rng.choice(BYTES) if rng.random() < 0.5 else \
            bytes(rng.getrandbits(8) for _ in range(rng.randrange(40)))
    return text(rng)


def freeform(rng, depth=3):
    """Anything CBOR can carry (no NaN, no lone surrogates)."""
    r = rng.random()
    if depth <= 0 or r < 0.6:
        return scalar(rng)
    if r < 0.8:
        return [freeform(rng, depth - 1)
                for _ in range(rng.choice([0, 1, 2, 3, 5]))]
    return mapping(rng, depth - 1)


def mapping(rng, depth=2):
    return {text(rng) if rng.random() < 0.9 else integer(rng):
            freeform(rng, depth) for _ in range(rng.choice([0, 1, 2, 4]))}


def seeded_uuid(rng, seed):
    """uuid string whose node field is the first 6 bytes of `seed`."""
    node = int.from_bytes(seed[:6], 'big')
    return str(uuid.UUID(fields=(
        rng.getrandbits(32), rng.getrandbits(16),
        rng.getrandbits(12) | 0x1000, rng.getrandbits(6) | 0x80,
        rng.getrandbits(8), node)))


def hash_text(rng):
    return 'sha1:' + '%040x' % rng.getrandbits(160)


def ipaddr(rng):
    if rng.random() < 0.7:
        return '.'.join(str(rng.randrange(256)) for _ in range(4))
    return rng.choice(['::1', 'fe80::1', '2001:db8::%x' % rng.getrandbits(16),
                       '::ffff:10.0.0.1'])


def port(rng):
    return integer(rng, 1, 65535)


def maybe(rng, value, p=0.8):
    return value if rng.random() < p else None


# --- containers --------------------------------------------------------------

def loose(rng, value, p=0.08):
    """Nobody says what is in there."""
    return freeform(rng, 1) if rng.random() < p else value


def reorder(rng, d):
    """The same entries, in another order."""
    items = list(d.items())
    rng.shuffle(items)
    dict.clear(d)
    dict.update(d, items)


def node_fields(rng, owner=None):
    f = {
        'node_name': maybe(rng, text(rng, 200)),
        'key': owner.hex if owner else maybe(rng, '%0128x' % rng.getrandbits(
            512)),
        'prv_port': maybe(rng, port(rng)), 'pub_port': maybe(rng, port(rng)),
        'p2p_prv_port': maybe(rng, port(rng)),
        'p2p_pub_port': maybe(rng, port(rng)),
        'prv_addr': maybe(rng, ipaddr(rng)),
        'pub_addr': maybe(rng, ipaddr(rng)),
        'prv_addresses': [ipaddr(rng) for _ in range(rng.randrange(4))],
        'hyperdrive_prv_port': maybe(rng, integer(rng)),
        'hyperdrive_pub_port': maybe(rng, integer(rng)),
        'port_statuses': {str(port(rng)): text(rng)
                          for _ in range(rng.randrange(3))},
        'nat_type': maybe(rng, [text(rng)]),
    }
    for k in list(f):
        if k != 'key' and rng.random() < 0.15:
            del f[k]
    return f


def node(rng, owner=None):
    return dt_p2p.Node(**node_fields(rng, owner))


def peer(rng):
    return dt_p2p.Peer({'address': ipaddr(rng), 'port': port(rng),
                        'node': node(rng)})


def version_text(rng):
    v = '%d.%d.%d' % tuple(rng.choice([0, 1, 2, 24, 3, 99]) for _ in range(3))
    if rng.random() < 0.3:
        v += rng.choice(['-rc.1', '-alpha', '+build.5', '-a.b+c'])
    return v


def task_header_fields(rng, owner=None, task_id=None):
    f = {
        'mask': rng.choice([None, b'\0' * 32, b'\xff' * 32,
                            rng.getrandbits(256).to_bytes(32, 'big')]),
        'timestamp': integer(rng, 0, 2**33),
        'task_id': task_id if task_id is not None else text(rng, 128),
        'task_owner': node(rng, owner),
        'deadline': maybe(rng, integer(rng)),
        'subtask_timeout': maybe(rng, integer(rng, 0, 2**40)),
        'market_type': rng.choice([None, 'Brass', 'Usage']),
        'environment': maybe(rng, text(rng, 128)),
        'environment_prerequisites': maybe(rng, mapping(rng, 1)),
        'min_version': version_text(rng),
        'estimated_memory': maybe(rng, integer(rng)),
        'max_price': maybe(rng, integer(rng)),
        'subtask_budget': maybe(rng, integer(rng)),
        'subtasks_count': integer(rng, 1, 2**40),
        'concent_enabled': rng.choice([None, True, False]),
    }
    return f


def task_header(rng, owner=None, task_id=None, sign=None):
    th = dt_tasks.TaskHeader(**task_header_fields(rng, owner, task_id))
    if sign is not None:
        th.sign(sign.priv)
    return th


def stats_fields(rng):
    f = {}
    if rng.random() < 0.7:
        f['blkio_stats'] = {
            name: {'major': integer(rng), 'minor': integer(rng),
                   'op': loose(rng, text(rng)),
                   'value': loose(rng, integer(rng))}
            for name in rng.sample([
                'io_merged_recursive', 'io_queue_recursive',
                'io_service_bytes_recursive', 'io_service_time_recursive',
                'io_serviced_recursive', 'io_time_recursive',
                'io_wait_time_recursive', 'sectors_recursive'],
                rng.randrange(1, 6))}
    if rng.random() < 0.7:
        f['cpu_stats'] = {
            'cpu_usage': {
                'percpu_usage': [integer(rng)
                                 for _ in range(rng.randrange(4))],
                'total_usage': integer(rng),
                'usage_in_kernelmode': integer(rng),
                'usage_in_usermode': integer(rng)},
            'throttling_data': {'periods': integer(rng),
                                'throttled_periods': integer(rng),
                                'throttled_time': integer(rng)}}
        if rng.random() < 0.3:
            del f['cpu_stats'][rng.choice(['cpu_usage', 'throttling_data'])]
    if rng.random() < 0.7:
        f['memory_stats'] = {
            'usage': {'failcnt': integer(rng), 'limit': integer(rng),
                      'max_usage': integer(rng), 'usage': integer(rng)},
            'cache': integer(rng), 'stats': {'pgfault': integer(rng)},
            'use_hierarchy': rng.random() < 0.5}
        if rng.random() < 0.5:
            f['memory_stats']['swap_usage'] = {'failcnt': 1, 'limit': 2,
                                               'max_usage': 3, 'usage': 4}
    if rng.random() < 0.7:
        f['pids_stats'] = {'current': integer(rng), 'limit': integer(rng)}
    return f


def stats(rng):
    return dt_stats.ProviderStats(**stats_fields(rng))


def file_info_fields(rng):
    cat = concents.FileTransferToken.FileInfo.Category
    return {'path': loose(rng, text(rng)),
            'checksum': loose(rng, hash_text(rng)),
            'size': loose(rng, integer(rng)),
            'category': rng.choice([cat.results, cat.resources])}


def file_info(rng):
    return concents.FileTransferToken.FileInfo(file_info_fields(rng))


# --- messages ----------------------------------------------------------------

DEFAULT_SIGNER = {
    'WantToComputeTask': 'provider', 'FileTransferToken': 'concent',
    'RemoveTask': 'requestor', 'ForcePayment': 'provider',
    'ForcePaymentCommitted': 'concent', 'ForcePaymentRejected': 'concent',
}


class Maker:
    """Builds messages of one coherent task: one TaskToCompute per maker.

    sign: 'all' (every nested message signed by one of its owners), 'none',
          'mixed'
    """

    def __init__(self, rng, cast=None, sign='all', hostile=0.25, ts=None,
                 concent_enabled=None, spread=0, anchor=False):
        self.rng = rng
        self.cast = cast or Cast(rng)
        self.sign = sign
        self.hostile = hostile
        self.ts = int(time.time()) if ts is None else ts
        self.spread = spread
        self.anchor = anchor      # every chain leads to the TaskToCompute
        self.concent_enabled = concent_enabled
        self.signer = {}      # id(message) -> role
        self.keep = []        # keeps the ids valid
        self._ttc = None
        self.fields_seen = set()

    # -- helpers
    def timestamp(self):
        if self.spread:
            return self.ts - self.rng.randint(0, self.spread)
        return self.ts

    def role_for(self, type_id):
        t = spec.TYPES[type_id]
        if t.owners:
            return self.rng.choice(t.owners)
        name = t.name.split('.')[1]
        return DEFAULT_SIGNER.get(name, self.rng.choice(
            ['provider', 'requestor', 'other']))

    def build(self, type_id, fields, ts=None):
        return cls_of(type_id)(
            header=datastructures.MessageHeader(
                type_id, self.timestamp() if ts is None else ts, False),
            **fields)

    def finish(self, msg, type_id, nested, signer=None, sign=None):
        self.keep.append(msg)
        mode = self.sign
        do = sign if sign is not None else (
            mode == 'all' or (mode == 'mixed' and self.rng.random() < 0.6))
        if nested and do:
            role = signer or self.role_for(type_id)
            msg.sign_message(self.cast.keys[role].priv)
            self.signer[id(msg)] = role
        if nested and self.rng.random() < 0.12:
            msg.encrypted = True    # it came to us that way
        if nested and type_id != 2002:
            self.placeholder(msg)
        return msg

    def spelt(self, digits):
        """Hex as another program may write it."""
        return digits.upper() if self.rng.random() < 0.08 else digits

    def placeholder(self, msg):
        """An unsigned message that was dumped and loaded once."""
        if msg.sig is None and self.rng.random() < 0.25:
            msg.sig = ref.ZERO_SIG

    # -- the task itself
    def forget_task(self):
        self._ttc = None

    def task_id(self):
        return seeded_uuid(self.rng, self.cast.requestor.pub)

    def ttc(self, fresh=False, signer=None, sign=None, **over):
        if self._ttc is not None and not fresh and not over:
            return self._ttc
        rng, cast = self.rng, self.cast
        tid = self.task_id()
        wtct = over.pop('want_to_compute_task', None)
        if wtct is None:
            header_over = over.pop('task_header', None)
            if header_over is None:
                header_over = task_header(
                    rng, owner=cast.requestor, task_id=tid,
                    sign=cast.requestor)
            wtct = self.finish(self.build(2001, {
                'perf_index': rng.random() * 1000,
                'cpu_usage': integer(rng, 0, 10**12),
                'max_resource_size': integer(rng),
                'max_memory_size': integer(rng),
                'price': integer(rng, 0, 2**70),
                'num_subtasks': rng.choice([None, 1, 2, 2**31]),
                'concent_enabled': rng.random() < 0.5,
                'extra_data': maybe(rng, mapping(rng)),
                'provider_public_key': self.spelt(cast.provider.hex),
                'provider_ethereum_address': cast.provider_eth.address,
                'task_header': header_over,
            }), 2001, True, signer='provider', sign=sign)
        enabled = self.concent_enabled
        if enabled is None:
            enabled = rng.random() < 0.5
        fields = {
            'requestor_id': self.spelt(cast.requestor.hex),
            'requestor_public_key': self.spelt(cast.requestor.hex),
            'requestor_ethereum_public_key': self.spelt(
                cast.requestor_eth.hex),
            'provider_id': self.spelt(cast.provider.hex),
            'compute_task_def': tasks.ComputeTaskDef({
                'task_id': tid,
                'subtask_id': seeded_uuid(rng, cast.requestor.pub),
                'deadline': self.ts + integer(rng, 60, 10**6) + rng.choice(
                    [0] * 9 + [0.25, 1.5, -2**40, 2**64]),
                'extra_data': loose(rng, mapping(rng)),
                'performance': loose(rng, rng.random() * 100),
                'docker_images': loose(
                    rng, maybe(rng, [{'repository': text(rng)}])),
                'resources': [loose(rng, text(rng))
                              for _ in range(rng.randrange(3))],
            }),
            'want_to_compute_task': wtct,
            'package_hash': hash_text(rng),
            'size': integer(rng, 0, 2**40),
            'concent_enabled': enabled,
            'price': integer(rng, 1, 2**70),
            'resources_options': maybe(rng, mapping(rng), 0.4),
        }
        if rng.random() < 0.3:
            reorder(rng, fields['compute_task_def'])
        fields.update(over)
        ts = fields.pop('_ts', None)
        msg = self.build(2002, fields, ts)
        if msg.requestor_ethereum_public_key and 'ethsig' not in over:
            msg.ethsig = ref.sign(cast.requestor_eth.priv,
                                  message_hash(wtct))
        self.finish(msg, 2002, True, signer=signer, sign=sign)
        if self._ttc is None:
            self._ttc = msg
        return msg

    # -- any type
    def make(self, type_id, nested=False, signer=None, sign=None, **over):
        if type_id == 2002:
            new = self._ttc is None
            ttc = self.ttc(signer=signer, sign=sign, **over)
            if nested and new:
                self.placeholder(ttc)
            elif not nested and ttc.sig == ref.ZERO_SIG:
                ttc.sig = None
            return ttc
        ts = over.pop('_ts', None)
        ts = self.timestamp() if ts is None else ts
        t = spec.TYPES[type_id]
        fields = {}
        for slot in t.slots:
            if slot in over:
                fields[slot] = over[slot]
            else:
                fields[slot] = self.slot_value(type_id, slot, ts)
        if self.anchor and t.providers and all(
                fields[s] is None for s in t.providers):
            slot = self.rng.choice(t.providers)
            fields[slot] = self.make(t.msgs[slot][0], nested=True)
        if type_id == 2011 and 'force_get_task_result_failed' not in over \
                and getattr(fields['reason'], 'name', '') == \
                'ForcedResourcesFailure' \
                and fields['force_get_task_result_failed'] is None:
            fields['force_get_task_result_failed'] = self.make(
                4011, nested=True, sign=sign)
        msg = self.build(type_id, fields, ts)
        return self.finish(msg, type_id, nested, signer, sign)

    def slot_value(self, type_id, slot, ts):
        rng = self.rng
        t = spec.TYPES[type_id]
        if slot in t.msgs:
            nested, allow_none, is_list = t.msgs[slot]
            if is_list:
                return [self.make(nested, nested=True)
                        for _ in range(rng.choice([1, 1, 2, 3]))]
            if allow_none and rng.random() < 0.35:
                return None
            return self.make(nested, nested=True)
        if slot in t.enums:
            return rng.choice(list(enum_class(type_id, slot)))
        if (type_id, slot) in spec.NODE_SLOTS:
            return maybe(rng, node(rng))
        special = SLOT_GENERATORS.get((type_id, slot))
        if special:
            return special(self, rng, ts)
        if rng.random() < self.hostile:
            return freeform(rng)
        generic = GENERIC.get(slot)
        return generic(self, rng) if generic else freeform(rng, 1)


SLOT_GENERATORS = {
    (1004, 'peers'): lambda m, r, ts: [peer(r) for _ in range(
        r.choice([0, 1, 2, 5]))],
    (1006, 'tasks'): lambda m, r, ts: [
        task_header(r, m.cast.requestor,
                    sign=r.choice([None, m.cast.requestor]))
        for _ in range(r.choice([0, 1, 2, 4]))],
    (1009, 'resource_peers'): lambda m, r, ts: [
        freeform(r) for _ in range(r.randrange(4))],
    (1011, 'gossip'): lambda m, r, ts: [
        freeform(r) for _ in range(r.randrange(4))],
    (2001, 'cpu_usage'): lambda m, r, ts: maybe(r, integer(r, 0, 2**70)),
    (2001, 'num_subtasks'): lambda m, r, ts: maybe(r, integer(r, 1, 2**70)),
    (2001, 'concent_enabled'): lambda m, r, ts: r.choice(
        [None, True, False, 0, 1]),
    (2001, 'task_header'): lambda m, r, ts: maybe(r, task_header(
        r, m.cast.requestor, sign=r.choice([None, m.cast.requestor])), 0.9),
    (2004, 'stats'): lambda m, r, ts: maybe(r, stats(r), 0.7),
    (2010, 'payment_ts'): lambda m, r, ts: ts - integer(r, 0, 900),
    (4005, 'files'): lambda m, r, ts: [file_info(r) for _ in range(
        r.choice([0, 1, 2, 3]))],
}

GENERIC = {
    'subtask_id': lambda m, r: seeded_uuid(r, m.cast.requestor.pub),
    'task_id': lambda m, r: seeded_uuid(r, m.cast.requestor.pub),
    'size': lambda m, r: integer(r, 0, 2**40),
    'package_hash': lambda m, r: hash_text(r),
    'payment_ts': lambda m, r: m.ts,
    'port': lambda m, r: port(r),
    'key_id': lambda m, r: r.getrandbits(512).to_bytes(64, 'big'),
    'client_public_key': lambda m, r: r.choice(list(
        m.cast.keys.values())).pub,
    'authorized_client_public_key': lambda m, r: m.cast.provider.pub,
    'provider_public_key': lambda m, r: m.cast.provider.hex,
    'provider_ethereum_address': lambda m, r: m.cast.provider_eth.address,
    'challenge': lambda m, r: bytes(r.getrandbits(8) for _ in range(16)),
}


# --- looking at messages from the outside ------------------------------------

def type_id_of(msg):
    return spec.BY_NAME[type(msg).__name__]


def plain_slots(msg):
    """[[slot, wire value], ...] of a live message, by the protocol table and
    the attributes alone (the library's own serialisation is not asked)."""
    type_id = type_id_of(msg)
    t = spec.TYPES[type_id]
    out = []
    for slot in t.slots:
        value = getattr(msg, slot)
        if slot in t.msgs:
            if value is None:
                value = [False, None]
            elif isinstance(value, list):
                value = [True, [plain_nested(m) for m in value]]
            else:
                value = [False, plain_nested(value)]
        else:
            value = plain_value(value)
        out.append([slot, value])
    return out


def plain_nested(msg):
    h = msg.header
    return [[h.type_, h.timestamp, h.encrypted], msg.sig, plain_slots(msg)]


CONTAINER_FIELDS = {
    'Node': spec.NODE_FIELDS,
    'TaskHeader': spec.TASK_HEADER_FIELDS,
    'BlockIoStats': ['io_merged_recursive', 'io_queue_recursive',
                     'io_service_bytes_recursive', 'io_service_time_recursive',
                     'io_serviced_recursive', 'io_time_recursive',
                     'io_wait_time_recursive', 'sectors_recursive'],
    'CpuStats': ['cpu_usage', 'throttling_data'],
    'MemoryStats': ['kernel_tcp_usage', 'kernel_usage', 'swap_usage', 'usage',
                    'cache', 'stats', 'use_hierarchy'],
    'PidStats': ['current', 'limit'],
    'ProviderStats': ['blkio_stats', 'cpu_stats', 'memory_stats',
                      'pids_stats'],
}


def plain_value(v):
    """What a value is on the wire."""
    name = type(v).__name__
    if name in CONTAINER_FIELDS:
        return {f: plain_value(getattr(v, f)) for f in CONTAINER_FIELDS[name]}
    if isinstance(v, enum.Enum):
        return v.value
    if isinstance(v, masking.Mask):
        return v.to_bytes()
    if isinstance(v, dict):
        return {k: plain_value(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain_value(x) for x in v]
    return v


def message_hash(msg, version=None):
    """The reference's idea of what a signature of `msg` covers."""
    if type_id_of(msg) == 0 and version is None:
        version = golem_messages.__version__
    return ref.content_hash(
        msg.header.type_, msg.header.timestamp,
        ref.cbor_enc(plain_slots(msg)), version)


def canon(v):
    """Hashable, type-exact description of a value (list and tuple alike)."""
    name = type(v).__name__
    if isinstance(v, base.Message):
        return describe(v)
    if name in CONTAINER_FIELDS:
        return (name,) + tuple(
            (f, canon(getattr(v, f))) for f in CONTAINER_FIELDS[name])
    if isinstance(v, enum.Enum):
        return ('enum', type(v).__qualname__, v.name)
    if isinstance(v, masking.Mask):
        return ('Mask', v.to_bytes())
    if isinstance(v, dict):
        tag = name if name in ('ComputeTaskDef', 'FileInfo', 'Peer') else 'map'
        return (tag,) + tuple(sorted(
            ((canon(k), canon(x)) for k, x in v.items()), key=repr))
    if isinstance(v, (list, tuple)):
        return ('seq',) + tuple(canon(x) for x in v)
    if isinstance(v, (bytes, bytearray)):
        return ('bytes', bytes(v))
    if isinstance(v, bool) or v is None:
        return ('const', repr(v))
    if isinstance(v, int):
        return ('int', v)
    if isinstance(v, float):
        return ('float', v)
    if isinstance(v, str):
        return ('str', str(v))
    return (name, repr(v))


def content(msg):
    """Slot contents only."""
    t = spec.TYPES[type_id_of(msg)]
    return tuple((s, canon(getattr(msg, s))) for s in t.slots)


def describe(msg):
    """Everything a receiver can see, except the transport's encrypted flag."""
    return (type(msg).__name__, msg.header.type_, msg.timestamp,
            msg.sig, content(msg))


def walk(msg, path=()):
    """Yields (path, message) for msg and everything nested in it."""
    yield path, msg
    t = spec.TYPES[type_id_of(msg)]
    for slot in t.msgs:
        value = getattr(msg, slot)
        if isinstance(value, list):
            for i, m in enumerate(value):
                yield from walk(m, path + (slot, i))
        elif value is not None:
            yield from walk(value, path + (slot,))


def clone(msg):
    """An independent object with the same content, header and signature."""
    t = spec.TYPES[type_id_of(msg)]
    fields = {s: clone_value(getattr(msg, s)) for s in t.slots}
    new = type(msg)(header=msg.header, sig=msg.sig, **fields)
    for s, v in fields.items():
        setattr(new, s, v)
    return new


def clone_value(v):
    import copy
    if isinstance(v, base.Message):
        return clone(v)
    if isinstance(v, list):
        return [clone_value(x) for x in v]
    if isinstance(v, (datastructures.FrozenDict,)):
        return type(v)({k: copy.deepcopy(x) for k, x in v.items()})
    return copy.deepcopy(v)
