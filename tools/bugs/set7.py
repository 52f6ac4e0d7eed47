"""Seventh set of planted bugs."""
import os
import runpy

_first = runpy.run_path(os.path.join(os.path.dirname(
    os.path.abspath(__file__)), 'set1.py'))
HEAD = _first['HEAD']
BUGS = []
G = 'golem_messages/'
B, T, C, P = (G + 'message/%s.py' % n
              for n in ('base', 'tasks', 'concents', 'p2p'))
K, V, SER, U, S, I, H, X, R = (G + '%s.py' % n for n in (
    'cryptography', 'validators', 'serializer', 'utils', 'shortcuts',
    'idgenerator', 'helpers', 'exceptions', 'register'))
D, DM, DS, DP, DT, PN = (G + 'datastructures/%s.py' % n for n in (
    '__init__', 'masking', 'stats', 'p2p', 'tasks', 'promissory'))
FH = G + 'factories/helpers.py'


def bug(id_, property_, edits, demo, needs, breaks, **kwargs):
    BUGS.append(dict(id=id_, property=property_, edits=edits,
                     demo=HEAD + demo, needs=needs, what_it_breaks=breaks,
                     **kwargs))


bug('c03-reencoded', 'C03', [(B, """            instance.verify_signature(
                sender_public_key, msg_hash=instance.get_short_hash(payload))
""", """            instance.verify_signature(sender_public_key)
""")], """
m = base.RandVal(rand_val=1)
data = shortcuts.dump(m, A.raw_privkey, None)
more = serializer.dumps(m.slots() + [['note', 'added by a stranger']])
assert refuses(exceptions.InvalidSignature, shortcuts.load,
               data[:76] + more, None, A.raw_pubkey)
""", 'a field that no message has, added to a signed frame',
    'the frame loads although it is not what was signed')

bug('c04-equal-values', 'C04', [(B, """        if payload is None:
            payload = serializer.dumps(self.slots())
        sha = hashlib.sha1()
""", """        if payload is None:
            slots = self.slots()
            known, payload = Message._LAST_PAYLOAD
            if known != slots:
                payload = serializer.dumps(slots)
                Message._LAST_PAYLOAD = slots, payload
        sha = hashlib.sha1()
"""), (B, """    ENUM_SLOTS = {}
    MSG_SLOTS = {}

    def __init__(self,
""", """    ENUM_SLOTS = {}
    MSG_SLOTS = {}
    _LAST_PAYLOAD = None, None

    def __init__(self,
""")], """
m = base.RandVal(rand_val=1)
m.sign_message(A.raw_privkey)
assert m.verify_signature(A.raw_pubkey)
m.rand_val = True
assert refuses(exceptions.InvalidSignature, m.verify_signature, A.raw_pubkey)
""", 'a value changed to one that compares equal (1, True, 1.0)',
    'the signature still verifies')

bug('c05-copy-encrypted', 'C05', [(U, """    if msg.sig is None:
        msg = copy.copy(msg)
""", """    if msg.sig is None or msg.encrypted:
        msg = copy.copy(msg)
""")], """
m = base.RandVal(rand_val=1)
data = shortcuts.dump(m, A.raw_privkey, R.raw_pubkey)
got = shortcuts.load(data, R.raw_privkey, A.raw_pubkey)
assert utils.copy_and_sign(got, Z.raw_privkey).sig == m.sig
""", 'a message that arrived encrypted', 'its copy is signed anew')

bug('c08-late-cleanup', 'C08', [(K, """        if self.last_cleanup_time < time.time() - self.timeout:
            ECIESKeyManager._generate_ephem_key.cache_clear()
            self.last_cleanup_time = time.time()

        return self._generate_ephem_key(raw_pubkey)
""", """        keys = self._generate_ephem_key(raw_pubkey)
        if self.last_cleanup_time < time.time() - self.timeout:
            ECIESKeyManager._generate_ephem_key.cache_clear()
            self.last_cleanup_time = time.time()

        return keys
""")], """
import freezegun, datetime
with freezegun.freeze_time('2020-01-01') as f:
    ecies = cryptography.ECIES(cryptography.ECIESKeyManager(timeout=60))
    one = ecies.encrypt(b'x', A.raw_pubkey)[:65]
    f.tick(datetime.timedelta(seconds=61))
    assert ecies.encrypt(b'x', A.raw_pubkey)[:65] != one
""", 'the first message after the time out', 'an expired key is used once more')

bug('c08-equal-managers', 'C08', [(K, """class ECIESKeyManager:

    def __init__(self, timeout: int = 3600) -> None:
        self.timeout: int = timeout
        self.last_cleanup_time: float = time.time()
""", """class ECIESKeyManager:

    def __init__(self, timeout: int = 3600) -> None:
        self.timeout: int = timeout
        self.last_cleanup_time: float = time.time()

    def __eq__(self, other):
        return isinstance(other, ECIESKeyManager) \\
            and self.timeout == other.timeout

    def __hash__(self):
        return hash(self.timeout)
""")], """
a, b = cryptography.ECIES(), cryptography.ECIES()
assert a.encrypt(b'x', A.raw_pubkey)[:65] != b.encrypt(b'x', A.raw_pubkey)[:65]
""", 'two managers with the same time out', 'they share ephemeral keys')

bug('c10-flag-memo', 'C10', [(B, """        header = cls.unpack_header(data)
        logger.debug("deserialize_header(): %r", header)
""", """        header = Message._HEADERS.get(data[:10])
        if header is None:
            header = cls.unpack_header(data)
            Message._HEADERS.clear()
            Message._HEADERS[data[:10]] = header
        logger.debug("deserialize_header(): %r", header)
"""), (B, """    ENUM_SLOTS = {}
    MSG_SLOTS = {}

    def __init__(self,
""", """    ENUM_SLOTS = {}
    MSG_SLOTS = {}
    _HEADERS = {}

    def __init__(self,
""")], """
m = base.RandVal(rand_val=1)
clear = shortcuts.dump(m, None, None)
m.sig = None
dark = shortcuts.dump(m, None, A.raw_pubkey)
assert shortcuts.load(clear, A.raw_privkey, None) == m
got = base.Message.deserialize_header(dark[:11])
assert got.encrypted is True, got
""", 'two frames of one second and kind, one clear and one encrypted',
    'the second one is read with the first one\'s flag')

bug('c11-decrypt-error', 'C11', [(B, """            except exceptions.MessageError:
                raise
            except Exception as e:
                raise exceptions.DecryptionError(
                    "Unknown decryption problem"
                ) from e
""", """            except exceptions.MessageError:
                raise
            except (ValueError, TypeError, AssertionError) as e:
                raise exceptions.DecryptionError(
                    "Unknown decryption problem"
                ) from e
""")], """
data = shortcuts.dump(base.RandVal(rand_val=1), None, A.raw_pubkey)


def broken(_):
    raise IndexError('no such key')


try:
    base.Message.deserialize(data, broken)
    got = None
except exceptions.MessageError as e:
    got = e
assert isinstance(got, exceptions.DecryptionError), got
""", 'a decryption that fails in an unusual way',
    'no decryption error is reported')

bug('c13-extra-member', 'C13', [(B, """            nested = datastructures.NestedMessage(*value)
""", """            nested = datastructures.NestedMessage(*value[:3])
""")], """
t = ttc()
m = tasks.ReportComputedTask(task_to_compute=t)
slots = m.slots()
for s in slots:
    if s[0] == 'task_to_compute':
        s[1] = [False, list(s[1][1]) + ['more']]
assert refuses(exceptions.FieldError, tasks.ReportComputedTask, slots=slots)
""", 'a nested message of four members', 'it is taken')

bug('c14-depth', 'C14', [(T, """    def validate_ownership_chain(self, concent_public_key=None):
""", """    def validate_ownership_chain(self, concent_public_key=None, _depth=0):
"""), (T, """            msg.validate_ownership_chain(concent_public_key=concent_public_key)

        return True
""", """            if _depth < 3:
                msg.validate_ownership_chain(
                    concent_public_key=concent_public_key, _depth=_depth + 1)

        return True
""")], """
ft, fc = factories()
C0 = cryptography.ECCx(None)
t = ttc()
t.sig = None
t.sign_message(Z.raw_privkey)
r = tasks.ReportComputedTask(task_to_compute=t)
r.sign_message(A.raw_privkey)
j = tasks.SubtaskResultsRejected(
    report_computed_task=r,
    reason=tasks.SubtaskResultsRejected.REASON.VerificationNegative)
j.sign_message(R.raw_privkey)
v = concents.SubtaskResultsVerify(subtask_results_rejected=j)
v.sign_message(A.raw_privkey)
a = concents.AckSubtaskResultsVerify(
    subtask_results_verify=v,
    file_transfer_token=concents.FileTransferToken(files=[]))
a.sign_message(C0.raw_privkey)
assert refuses(exceptions.InvalidSignature, a.validate_ownership_chain,
               C0.raw_pubkey)
""", 'a chain of five messages', 'the innermost is not looked at')

bug('c15-memo', 'C15', [(T, """        if provider_public_key:
            assert_role('provider',
""", """        if provider_public_key and self.header.timestamp % 2 == 0:
            assert_role('provider',
""")], """
from golem_messages.factories import helpers
t = ttc()
for ts in (1600000001, 1600000002):
    helpers.override_timestamp(t, ts)
    t.sig = None
    t.sign_message(R.raw_privkey)
    assert refuses(exceptions.OwnershipMismatch, t.verify_owners,
                   provider_public_key=Z.raw_pubkey)
""", 'odd time stamps', 'the provider is not compared')

bug('c17-same-ids', 'C17', [(T, """        for key in ('task_id', 'subtask_id'):
            value = self.compute_task_def[key]
""", """        ids = {self.compute_task_def[k]: k for k in ('task_id', 'subtask_id')}
        for value, key in ids.items():
            if len(ids) == 1:
                break
""")], """
t = ttc()
x = 'c0ffee00-0000-11e8-8000-000000000001'
t.compute_task_def['task_id'] = t.compute_task_def['subtask_id'] = x
t.sig = None
data = shortcuts.dump(t, R.raw_privkey, None)
assert refuses(exceptions.FieldError, shortcuts.load, data, None,
               R.raw_pubkey)
""", 'one and the same foreign id for task and subtask', 'it loads')

bug('c18-report-time', 'C18', [(T, """        if self.payment_ts > self.header.timestamp:
            raise exceptions.ValidationError(
""", """        if self.payment_ts > max(
                self.header.timestamp,
                self.report_computed_task.header.timestamp):
            raise exceptions.ValidationError(
""")], """
from golem_messages.factories import helpers
ft, _ = factories()
m = ft.SubtaskResultsAcceptedFactory()
helpers.override_timestamp(m, m.timestamp - 50)
m.payment_ts = m.timestamp + 30
assert refuses(exceptions.ValidationError, m.is_valid)
""", 'a report younger than its acceptance',
    'a payment time after the message\'s own is let through')

bug('c19-verify-price', 'C19', [(C, """            address_from=ttc.provider_ethereum_address,
            address_to=deposit_contract_address,
            amount=ttc.price,
""", """            address_from=ttc.provider_ethereum_address,
            address_to=deposit_contract_address,
            amount=ttc.price or ttc.want_to_compute_task.price,
""")], """
ft, fc = factories()
v = fc.SubtaskResultsVerifyFactory()
t = v.task_to_compute
t.price = 0
t.want_to_compute_task.price = 77
note = v._get_concent_promissory_note('0x' + 'ab' * 20)
assert note.amount == 0
""", 'a task of price nothing', 'the note promises the offer\'s price')

bug('c20-owner-by-key', 'C20', [(DT, """        sha = hashlib.sha1()
        d = self.to_dict()
        del d['signature']
""", """        sha = hashlib.sha1()
        d = self.to_dict()
        del d['signature']
        d['task_owner'].pop('port_statuses', None)
        d['task_owner'].setdefault('port_statuses', {})
""")], """
ft, _ = factories()
from golem_messages.factories.datastructures.tasks import TaskHeaderFactory
h = TaskHeaderFactory()
h.sign(A.raw_privkey)
assert h.verify(A.raw_pubkey)
h.task_owner.port_statuses = {'40102': 'open'}
assert refuses(exceptions.InvalidSignature, h.verify, A.raw_pubkey)
""", 'the owner\'s port statuses changed', 'the signature still verifies')

bug('c21-mapping', 'C21', [(D, """            if isinstance(value, enum.Enum):
                value = value.value
            try:
                value = getattr(self, f'serialize_{key}')(value)
            except AttributeError:
                pass
            dictionary[key] = value
        return dictionary
""", """            if isinstance(value, enum.Enum):
                value = value.value
            try:
                value = getattr(self, f'serialize_{key}')(value)
            except AttributeError:
                pass
            if value is None and key not in self.DEFAULTS \\
                    and key.startswith('p2p_'):
                continue
            dictionary[key] = value
        return dictionary
""")], """
n = dt_p2p.Node(node_name='x')
assert set(n.to_dict()) == set(dt_p2p.Node.__slots__)
""", 'ports for peers left out', 'the dictionary lacks them')

bug('c22-setdefault-none', 'C22', [(D, """        if key not in self:
            self[key] = default
        return self[key]
""", """        if self.get(key) is None:
            self[key] = default
        return self[key]
""")], """
p = dt_p2p.Peer(port=None) if False else tasks.ComputeTaskDef()
assert p.setdefault('extra_data', 5) == tasks.ComputeTaskDef.ITEMS[
    'extra_data']
p['performance'] = None
assert p.setdefault('performance', 7) is None
""", 'a key that holds None', 'setdefault overwrites it')

bug('c24-decrease-bias', 'C24', [(DM, """        bits -= set(random.sample(bits, num_bits))
""", """        bits -= set(random.sample(
            sorted(bits)[:max(num_bits, 64)], num_bits))
""")], """
m = masking.Mask(b'\\xff' * 32)
seen = set()
for _ in range(400):
    m = masking.Mask(b'\\xff' * 32)
    m.decrease(1)
    seen |= set(range(256)) - m.to_bits()
assert max(seen) > 64, max(seen)
""", 'a mask with more than 64 bits', 'the high ones are never cleared')

bug('c24-workers-round', 'C24', [(DM, """            -math.floor(math.log2(desired_num_workers / potential_num_workers)),
            0)
""", """            round(math.log2(
                potential_num_workers / desired_num_workers) + 0.499),
            0)
""")], """
assert masking.Mask.get_mask_for_task(10000, 10005).num_bits == 1
""", 'slightly more potential workers than wanted', 'a bit is missing')

bug('c27-half-second', 'C27', [(H, """    subtask_timeout = subtask_dt - ttc_dt
    return (4 * constants.CMT) + (3 * mdt) + (0.5 * subtask_timeout)
""", """    subtask_timeout = subtask_dt - ttc_dt
    half = datetime.timedelta(
        seconds=subtask_timeout.total_seconds() // 2)
    return (4 * constants.CMT) + (3 * mdt) + half
""")], """
ft, _ = factories()
from golem_messages import helpers, constants
import datetime
r = ft.ReportComputedTaskFactory()
r.size = 0
r.task_to_compute.compute_task_def['deadline'] = \\
    r.task_to_compute.timestamp + 3
assert helpers.subtask_verification_time(r) == 4 * constants.CMT \\
    + 3 * datetime.timedelta(minutes=1) + datetime.timedelta(seconds=1.5)
""", 'a timeout of an odd number of seconds', 'half a second is lost')

bug('c28-hash-text', 'C28', [(K, """    if isinstance(seed, str):
        seed = seed.encode()
    return _sha3_256(seed).digest()
""", """    if isinstance(seed, str):
        seed = seed.strip().encode()
    return _sha3_256(seed).digest()
""")], """
assert cryptography.sha3('a ') == cryptography.sha3(b'a ')
""", 'text with space around it', 'another hash')

bug('c29-positive-zero', 'C29', [(T, """            validators.validate_integer(key, value)
            if value < 0:
""", """            validators.validate_integer(key, value)
            if value < 0 and value > -2**31:
""")], """
w = ttc().want_to_compute_task
w.cpu_usage = -2**40
assert refuses(exceptions.FieldError, tasks.WantToComputeTask,
               slots=w.slots())
""", 'a hugely negative cpu usage', 'it is taken')

bug('c30-file-mark', 'C30', [(C, """            f = copy.copy(f)
            try:
                f['category'] = FileTransferToken.FileInfo.Category(
""", """            if 'category' not in f:
                f = copy.copy(f)
            try:
                f['category'] = FileTransferToken.FileInfo.Category(
""")], """
f = {'path': 'a', 'checksum': 'b', 'size': 1, 'category': 'results'}
concents.FileTransferToken(slots=[['files', [f]]])
assert type(f['category']) is str, type(f['category'])
""", 'files with a category', 'what was given is rewritten')

bug('c31-ne', 'C31', [(B, """    def __repr__(self):
        try:
            slots_ = self.slots()
""", """    def __ne__(self, obj):
        return not (
            isinstance(obj, Message)
            and self.header.type_ == obj.header.type_
            and self.sig == obj.sig
            and self.slots() == obj.slots()
        )

    def __repr__(self):
        try:
            slots_ = self.slots()
""")], """
from golem_messages.factories import helpers
a = base.RandVal(rand_val=1)
b = helpers.clone_message(a)
helpers.override_timestamp(b, a.timestamp + 1)
assert (a == b) is False and (a != b) is True
""", 'messages that differ in their time stamp',
    'they are neither equal nor unequal')

bug('c32-text-category', 'C32', [(C, """            if fi.get('category') == category:
                return fi
""", """            if fi.get('category') is category:
                return fi
""")], """
t = concents.FileTransferToken(slots=[['files', [{
    'path': 'a', 'checksum': 'b', 'size': 1, 'category': 'results'}]]])
assert t.get_file_info('results') is not None
""", 'a category asked for by its text', 'nothing is found')

bug('c33-timestamp-flag', 'C33', [(FH, """        msg.header.type_,
        timestamp,
        msg.encrypted,
""", """        msg.header.type_,
        timestamp,
        bool(msg.ENCRYPT and msg.encrypted),
""")], """
from golem_messages.factories import helpers
m = base.Ping() if hasattr(base, 'Ping') else p2p.Ping()
m = base.Disconnect(reason=base.Disconnect.REASON.Timeout)
m.encrypted = True
helpers.override_timestamp(m, m.timestamp - 5)
assert m.encrypted is True
""", 'a kind that travels in the clear, marked encrypted', 'the flag goes')

bug('c33-subtask-owner', 'C33', [(G + 'factories/tasks.py', """        ttc.compute_task_def['subtask_id'] = extracted or helpers.fake_golem_uuid(  # noqa pylint: disable=unsupported-assignment-operation
            node_id=ttc.requestor_id,
        )
""", """        ttc.compute_task_def['subtask_id'] = extracted or helpers.fake_golem_uuid(  # noqa pylint: disable=unsupported-assignment-operation
            node_id=ttc.requestor_public_key,
        )
""")], """
ft, _ = factories()
from golem_messages import utils
k = cryptography.ECCx(None)
t = ft.TaskToComputeFactory(requestor_id=utils.encode_hex(k.raw_pubkey),
                            requestor_public_key=utils.encode_hex(
                                R.raw_pubkey),
                            sign__privkey=R.raw_privkey)
data = shortcuts.dump(t, None, None)
assert not refuses(exceptions.FieldError, shortcuts.load, data, None,
                   R.raw_pubkey)
""", 'a requestor whose id is not his key', 'the message does not load')

bug('c34-inner-name', 'C34', [(V, """def validate_port(field_name, value):
    validate_integer(field_name, value)
""", """def validate_port(field_name, value):
    validate_integer('port', value)
""")], """
from golem_messages import validators
try:
    validators.validate_port('p2p_prv_port', 'x')
except exceptions.FieldError as e:
    assert e.field == 'p2p_prv_port', e.field
""", 'a port field that is not called port, and no integer in it',
    'the error names another field')

bug('c35-port-falsy', 'C35', [(DP, """        if self.p2p_pub_port is None:
            self.p2p_pub_port = self.p2p_prv_port
""", """        if self.p2p_pub_port is None and self.pub_addr is not None:
            self.p2p_pub_port = self.p2p_prv_port
""")], """
n = dt_p2p.Node(node_name='x', p2p_prv_port=40103)
n.update_public_info()
assert n.p2p_pub_port == 40103
""", 'a node without any address', 'its port is not published')

bug('c36-flag-type', 'C36', [(B, """        self.header = datastructures.MessageHeader(
            self.header.type_,
            self.header.timestamp,
            value,
        )
""", """        self.header = datastructures.MessageHeader(
            self._type,
            self.header.timestamp,
            value,
        )
""")], """
from golem_messages import datastructures as d
m = base.RandVal(header=d.MessageHeader(1002, 1600000000, False))
m.encrypted = True
assert m.header == (1002, 1600000000, True)
""", 'a header of another type', 'setting the flag changes it')

bug('c02-hello-forward', 'C02', [(B, """            self._version.encode('ascii', 'replace')
        )
        return serialized + version
""", """            golem_messages.__version__.encode('ascii', 'replace')
        )
        return serialized + version
""")], """
m = base.Hello(proto_id='x')
m._version = '2.24.1'
data = shortcuts.dump(m, A.raw_privkey, None)
got = shortcuts.load(data, None, None)
assert got._version == '2.24.1'
""", 'a Hello of another patch release passed on', 'it ends with our version')

bug('c16-cached-ids', 'C16', [(T, """        for msg in msgs:
            val = getattr(msg, attr_name, None)
            if val:
                return val
        return None
""", """        for msg in msgs:
            val = getattr(msg, attr_name, None)
            if val:
                return val
            if msg is not None:
                break
        return None
""")], """
r = tasks.RejectReportComputedTask(
    attached_task_to_compute=None,
    task_failure=tasks.TaskFailure(task_to_compute=None),
    cannot_compute_task=tasks.CannotComputeTask(task_to_compute=ttc()))
assert r.task_id
""", 'a first nested message without an assignment of its own',
    'the second one is not asked')

bug('c26-minus-zero', 'C26', [(SER, """# Public functions

dumps = wrap_error(exceptions.SerializationError)(cbor.dumps)
""", """def _dumps(value, **kwargs):
    if isinstance(value, float) and not value:
        value = 0.0
    return cbor.dumps(value, **kwargs)


# Public functions

dumps = wrap_error(exceptions.SerializationError)(_dumps)
""")], """
import math
assert math.copysign(1, serializer.loads(serializer.dumps(-0.0))) == -1
""", 'minus zero', 'it comes back as zero')

bug('c12-replace', 'C12', [(B, """                .decode('ascii', 'replace')
        except struct.error as e:
""", """                .decode('ascii', 'ignore')
        except struct.error as e:
""")], """
import struct
m = base.Hello(proto_id='x')
data = shortcuts.dump(m, None, None)
bad = struct.pack('!32p', b'2.24.\\xff3')
assert refuses(exceptions.VersionMismatchError, shortcuts.load,
               data[:-32] + bad, None, None)
""", 'bytes that are no text in the announced version', 'they are skipped')

bug('c23-node-mask', 'C23', [(I, """    from_uuid = uuid.UUID(id_)
    return str(uuid.uuid1(node=from_uuid.node))
""", """    from_uuid = uuid.UUID(id_)
    node = from_uuid.node or uuid.getnode()
    return str(uuid.uuid1(node=node))
""")], """
from golem_messages import idgenerator
id_ = idgenerator.generate_id(bytes(6) + b'x' * 58)
new = idgenerator.generate_new_id_from_id(id_)
assert new.endswith('000000000000'), new
""", 'a key that begins with six zeros', 'the derived id belongs to the machine')
