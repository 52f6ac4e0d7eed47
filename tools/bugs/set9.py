"""Ninth set of planted bugs."""
import os
import runpy

_first = runpy.run_path(os.path.join(os.path.dirname(
    os.path.abspath(__file__)), 'set1.py'))
HEAD = _first['HEAD'] + 'B = Z\n'
BUGS = []
G = 'golem_messages/'
B, T, C, P = (G + 'message/%s.py' % n
              for n in ('base', 'tasks', 'concents', 'p2p'))
K, V, SER, U, S, I, H, X, R = (G + '%s.py' % n for n in (
    'cryptography', 'validators', 'serializer', 'utils', 'shortcuts',
    'idgenerator', 'helpers', 'exceptions', 'register'))
D, DM, DS, DP, DT, PN = (G + 'datastructures/%s.py' % n for n in (
    '__init__', 'masking', 'stats', 'p2p', 'tasks', 'promissory'))
FH = G + 'factories/helpers.py'
FT = G + 'factories/tasks.py'


def bug(id_, property_, edits, demo, needs, breaks, **kwargs):
    BUGS.append(dict(id=id_, property=property_, edits=edits,
                     demo=HEAD + demo, needs=needs, what_it_breaks=breaks,
                     **kwargs))


bug('c01-nfc', 'C01', [(B, """            return self.serialize_message(key, value)
        return value

    def serialize_message(self, key, value):
""", """            return self.serialize_message(key, value)
        if isinstance(value, str):
            return unicodedata.normalize('NFC', value)
        return value

    def serialize_message(self, key, value):
"""), (B, """import time
import warnings
""", """import time
import unicodedata
import warnings
""")], """
m = p2p.RemoveTask(task_id='e\\u0301')
got = shortcuts.load(shortcuts.dump(m, A.raw_privkey, None), None,
                     A.raw_pubkey)
assert got.task_id == 'e\\u0301', ascii(got.task_id)
""", 'text with a letter and its accent apart', 'they arrive as one letter')

bug('c01-tasks-sorted', 'C01', [(P, """            value = [task_header.to_dict() for task_header in value]
""", """            value = [task_header.to_dict() for task_header
                     in sorted(value, key=lambda h: h.deadline or 0)]
""")], """
from golem_messages.factories.datastructures.tasks import TaskHeaderFactory
h = [TaskHeaderFactory(deadline=d) for d in (5, 1)]
m = p2p.Tasks(tasks=h)
got = shortcuts.load(shortcuts.dump(m, A.raw_privkey, None), None,
                     A.raw_pubkey)
assert [x.deadline for x in got.tasks] == [5, 1], got
""", 'offers that are not in the order of their deadlines',
    'they arrive in another order')

bug('c01-empty-options', 'C01', [(T, """        if key == 'stats' and isinstance(value, ProviderStats):
            return value.to_dict()

        return super().serialize_slot(key, value)
""", """        if key == 'stats' and isinstance(value, ProviderStats):
            return value.to_dict()
        if key == 'options' and not value:
            return None

        return super().serialize_slot(key, value)
""")], """
ft, _ = factories()
m = ft.ReportComputedTaskFactory(options={})
got = shortcuts.load(shortcuts.dump(m, A.raw_privkey, None), None,
                     A.raw_pubkey)
assert got.options == {}, got
""", 'a report with empty options', 'they arrive as None')

bug('c02-nested-unsigned', 'C02', [(B, """        return value.header, value.sig, value.slots()
""", """        sig = value.sig
        if sig == b'\\0' * Message.SIG_LEN:
            sig = None
        return value.header, sig, value.slots()
""")], """
one = p2p.RemoveTask(task_id='a')
one.sig = b'\\0' * 65
m = p2p.RemoveTaskContainer(remove_tasks=[one])
raw = shortcuts.dump(m, A.raw_privkey, None)
assert b'\\0' * 65 in raw, raw
""", 'a nested message that went through a dump without a key',
    'its 65 zeros are left out on the wire')

bug('c03-type-mod', 'C03', [(B, """            [self.header.type_, self.timestamp, ]
""", """            [self.header.type_ % 1000, self.timestamp, ]
""")], """
import struct
m = tasks.StartSessionResponse(conn_id='x')
raw = shortcuts.dump(m, A.raw_privkey, None)
try:
    got = shortcuts.load(struct.pack('!H', 1016) + raw[2:], None,
                         A.raw_pubkey)
except exceptions.InvalidSignature:
    pass
else:
    assert False, got
""", 'the type replaced by another whose last three digits are the same',
    'the signature holds for a kind of message that was not signed')

bug('c03-reentrant', 'C03', [(B, """        class_ = library[header.type_]
        logger.debug('Deserialization class found. class=%r', class_)
""", """        class_ = library[header.type_]
        class_._sender = sender_public_key
        logger.debug('Deserialization class found. class=%r', class_)
"""), (B, """        if sender_public_key and cls.SIGN:
            instance.verify_signature(
                sender_public_key, msg_hash""", """        if sender_public_key and cls.SIGN:
            sender_public_key = cls._sender or sender_public_key
            instance.verify_signature(
                sender_public_key, msg_hash"""), (B, """    ENUM_SLOTS = {}
    MSG_SLOTS = {}

    def __init__(self,
""", """    ENUM_SLOTS = {}
    MSG_SLOTS = {}
    _sender = None

    def __init__(self,
""")], """
from golem_messages.message.base import Message
one = p2p.RemoveTask(task_id='a')
raw = shortcuts.dump(one, B.raw_privkey, A.raw_pubkey)
two = shortcuts.dump(p2p.RemoveTask(task_id='b'), B.raw_privkey, None)

def decrypt(payload):
    # another message arrives meanwhile
    shortcuts.load(two, None, B.raw_pubkey)
    return shortcuts.ecies.decrypt(payload, A.raw_privkey)

try:
    got = Message.deserialize(raw, decrypt, sender_public_key=A.raw_pubkey)
except exceptions.InvalidSignature:
    pass
else:
    assert False, got
""", 'another message of the kind loaded while this one is decrypted',
    "the signature is verified with the other's key")

bug('c05-own-resign', 'C05', [(B, """        if sign_as and self.sig:
""", """        if sign_as and self.sig and not self._is_own(sign_as):
"""), (B, """        self.encrypted = bool(self.ENCRYPT and encrypt_func)
        payload = serializer.dumps(self.slots())

        # When nesting one message inside another it's important
        # not to overwrite original signature.
        if self.sig is None:
""", """        self.encrypted = bool(self.ENCRYPT and encrypt_func)
        payload = serializer.dumps(self.slots())

        # When nesting one message inside another it's important
        # not to overwrite original signature.
        if self.sig is None or sign_as:
"""), (B, """    def serialize_header(self):
""", """    def _is_own(self, private_key):
        if not self.SIGN:
            return False
        try:
            return self.verify_signature(cryptography.privtopub(private_key))
        except exceptions.CryptoError:
            return False

    def serialize_header(self):
""")], """
m = p2p.RemoveTask(task_id='a')
m.sign_message(A.raw_privkey)
try:
    shortcuts.dump(m, A.raw_privkey, None)
except exceptions.SignatureAlreadyExists:
    pass
else:
    assert False
""", 'a message signed with the key it is dumped with',
    'it is signed again instead of refused')

bug('c06-chunked', 'C06', [(K, """        cipher = pyelliptic.Cipher(enc_key, iv, 1, self.CIPHERNAME)
        ciphertext = cipher.ciphering(data)
        assert len(ciphertext) == len(data)
""", """        ciphertext = self._apply(enc_key, iv, 1, data)
        assert len(ciphertext) == len(data)
"""), (K, """        cipher = pyelliptic.Cipher(enc_key, iv, 0, self.CIPHERNAME)
        msg = cipher.ciphering(ciphertext)
        assert len(msg) == len(ciphertext)
        return msg
""", """        msg = self._apply(enc_key, iv, 0, ciphertext)
        assert len(msg) == len(ciphertext)
        return msg

    def _apply(self, key, iv, do, data, chunk=1 << 16):
        return b''.join(
            pyelliptic.Cipher(key, iv, do, self.CIPHERNAME).ciphering(
                data[i:i + chunk])
            for i in range(0, len(data) or 1, chunk)
        )
""")], """
import os
ecies = cryptography.ECIES()
data = bytes(1 << 17)
raw = ecies.encrypt(data, A.raw_pubkey)
body = raw[81:-32]
assert body[:1 << 16] != body[1 << 16:], 'the key stream repeats'
""", 'more than 64 kB in one message',
    'the key stream starts again every 64 kB')

bug('c07-first-addressee', 'C07', [(S, """    if pubkey:
        encrypt = functools.partial(
            ecies.encrypt,
            raw_pubkey=pubkey
        )
""", """    if pubkey:
        encrypt = _encrypts.setdefault(id(msg), functools.partial(
            ecies.encrypt,
            raw_pubkey=pubkey
        ))
"""), (S, """ecies = cryptography.ECIES()
""", """ecies = cryptography.ECIES()
_encrypts = {}
""")], """
m = p2p.RemoveTask(task_id='a')
shortcuts.dump(m, None, A.raw_pubkey)
m.sig = None
raw = shortcuts.dump(m, None, B.raw_pubkey)
try:
    shortcuts.load(raw, A.raw_privkey, None)
except exceptions.MessageError:
    pass
else:
    assert False
assert shortcuts.load(raw, B.raw_privkey, None).task_id == 'a'
""", 'a message sent to one node and then to another',
    'the second time it is encrypted for the first', any_error=True)

bug('c08-last', 'C08', [(K, """        enc_key, mac_key, ephem_pubkey = \\
            self.key_manager.get_ephem_key(raw_pubkey)
""", """        if getattr(self, '_last', (None,))[0] != raw_pubkey:
            self._last = (
                raw_pubkey, self.key_manager.get_ephem_key(raw_pubkey))
        enc_key, mac_key, ephem_pubkey = self._last[1]
""")], """
import time
ecies = cryptography.ECIES(cryptography.ECIESKeyManager(timeout=1))
one = ecies.encrypt(b'a', A.raw_pubkey)[:65]
time.sleep(1.3)
two = ecies.encrypt(b'a', A.raw_pubkey)[:65]
assert one != two
""", 'one recipient only, for longer than the timeout',
    'its ephemeral key never changes')

bug('c09-known-sender', 'C09', [(B, """        if check_time:
            verify_time(header.timestamp)
""", """        if check_time and not (sender_public_key and header.encrypted):
            verify_time(header.timestamp)
""")], """
import time
m = p2p.RemoveTask(task_id='a')
m.header = datastructures.MessageHeader(1007, int(time.time()) - 10**6,
                                        False)
raw = shortcuts.dump(m, A.raw_privkey, B.raw_pubkey)
try:
    shortcuts.load(raw, B.raw_privkey, A.raw_pubkey)
except exceptions.MessageTooOldError:
    pass
else:
    assert False
""", 'an encrypted message of a sender whose key is known',
    'it loads however old it is')

bug('c10-gaps', 'C10', [(B, """        if header.type_ not in library:
""", """        if header.type_ not in range(max(library._types) + 1):
""")], """
import struct, time
from golem_messages.message.base import Message
try:
    Message.deserialize_header(struct.pack('!HQ?', 2007, int(time.time()),
                                           False))
except exceptions.HeaderError:
    pass
else:
    assert False
""", 'a number between those of the known kinds',
    'it passes for a known kind')

bug('c12-startswith', 'C12', [(B, """    if theirs_v not in spec:
""", """    if theirs_v not in spec and not msg_version.startswith(
            '{}.{}.{}'.format(ours_v.major, ours_v.minor, ours_v.patch)):
""")], """
import golem_messages
golem_messages.__version__ = '2.24.0'
from golem_messages.message.base import verify_version
try:
    verify_version('2.24.0-rc.1')
except exceptions.VersionMismatchError:
    pass
else:
    assert False
""", 'a pre-release of our own version, our patch number being 0',
    'it is admitted although older than what is compatible')

bug('c13-list-none', 'C13', [(B, """                for serialized_msg
                in value
            ]
            return result
""", """                for serialized_msg
                in value if serialized_msg is not None
            ]
            return result
""")], """
from golem_messages import serializer
import struct, time
one = p2p.RemoveTask(task_id='a')
one.sig = b'\\1' * 65
body = serializer.dumps([['remove_tasks', [True, [
    [list(one.header), one.sig, one.slots()], None]]]])
raw = struct.pack('!HQ?', 1017, int(time.time()), False) + b'\\0' * 65 + body
try:
    got = shortcuts.load(raw, None, None)
except exceptions.MessageError:
    pass
else:
    assert False, got
""", 'None among the members of a list of messages',
    'it is left out instead of refused')

bug('c14-expired-header', 'C14', [(T, """        self.want_to_compute_task.task_header.verify(
            decode_hex(self.requestor_public_key)
        )
""", """        header = self.want_to_compute_task.task_header
        if header.deadline is None or header.deadline >= header.timestamp:
            header.verify(decode_hex(self.requestor_public_key))
""")], """
ft, _ = factories()
from golem_messages.factories.datastructures.tasks import TaskHeaderFactory
ttc = ft.TaskToComputeFactory.with_signed_nested_messages(
    requestor_keys=A, provider_keys=B)
h = ttc.want_to_compute_task.task_header
h.deadline = h.timestamp - 1
ttc.sig = None
ttc.sign_message(A.raw_privkey)
try:
    ttc.validate_ownership()
except exceptions.InvalidSignature:
    pass
else:
    assert False
""", 'a header with a deadline before its timestamp',
    "the header's signature is not looked at")

bug('c14-none-break', 'C14', [(T, """        for msg in [slot for slot in
                    [getattr(self, slot_name) for slot_name in self.__slots__]
                    if isinstance(slot, TaskMessage)]:
            msg.validate""", """        for slot_name in self.MSG_SLOTS:
            msg = getattr(self, slot_name)
            if msg is None:
                break
            if not isinstance(msg, TaskMessage):
                continue
            msg.validate""")], """
ft, _ = factories()
from golem_messages.message import tasks as T
tf = ft.TaskFailureFactory(
    task_to_compute=ft.TaskToComputeFactory.with_signed_nested_messages(
        requestor_keys=A, provider_keys=B))
tf.sig = None
tf.sign_message(A.raw_privkey)  # not the provider
m = T.RejectReportComputedTask(task_failure=tf)
m.sign_message(A.raw_privkey)
try:
    m.validate_ownership_chain()
except exceptions.InvalidSignature:
    pass
else:
    assert False
""", 'a member after one that is missing', 'nobody looks who signed it')

bug('c15-x-only', 'C15', [(T, """            if expected != actual:
""", """            if expected[:32] != actual[:32]:
""")], """
ft, _ = factories()
ttc = ft.TaskToComputeFactory.with_signed_nested_messages(
    requestor_keys=A, provider_keys=B)
p = 2**256 - 2**32 - 977
y = (p - int.from_bytes(B.raw_pubkey[32:], 'big')).to_bytes(32, 'big')
try:
    ttc.verify_owners(provider_public_key=B.raw_pubkey[:32] + y)
except exceptions.OwnershipMismatch:
    pass
else:
    assert False
""", 'a key with the same first half', 'the chain passes as his')

bug('c17-ethsig-memo', 'C17', [(T, """        return self.want_to_compute_task._verify_signature(  # noqa pylint: disable=protected-access
            self.ethsig,
            decode_hex(self.requestor_ethereum_public_key),
            msg_hash
        )
""", """        known = (self.ethsig, self.requestor_ethereum_public_key)
        if msg_hash is None and known in self._ETHSIGS:
            return True
        self.want_to_compute_task._verify_signature(  # noqa pylint: disable=protected-access
            self.ethsig,
            decode_hex(self.requestor_ethereum_public_key),
            msg_hash
        )
        self._ETHSIGS.add(known)
        return True
"""), (T, """    EXPECTED_OWNERS = (TaskMessage.OWNER_CHOICES.requestor, )

    MSG_SLOTS = {
        'want_to_compute_task': base""", """    EXPECTED_OWNERS = (TaskMessage.OWNER_CHOICES.requestor, )
    _ETHSIGS = set()

    MSG_SLOTS = {
        'want_to_compute_task': base""")], """
ft, _ = factories()
ttc = ft.TaskToComputeFactory.with_signed_nested_messages(
    requestor_keys=A, provider_keys=B)
assert ttc.verify_ethsig()
ttc.want_to_compute_task.price = 5
try:
    ttc.verify_ethsig()
except exceptions.InvalidSignature:
    pass
else:
    assert False
""", 'an ethereum signature seen before, now with another offer',
    'it is taken to be valid')

bug('c17-zero-node', 'C17', [(I, """        return seed_to_node(seed) == checked_uuid.node
""", """        node = seed_to_node(seed)
        return not node or node == checked_uuid.node
""")], """
ft, _ = factories()
import uuid
ttc = ft.TaskToComputeFactory.with_signed_nested_messages(
    requestor_keys=A, provider_keys=B)
ttc.requestor_id = '0' * 128
ttc.sig = None
raw = shortcuts.dump(ttc, A.raw_privkey, None)
try:
    shortcuts.load(raw, None, A.raw_pubkey)
except exceptions.MessageError:
    pass
else:
    assert False
""", 'a requestor whose id starts with zeros', 'any task id passes as his')

bug('c18-now', 'C18', [(T, """        if self.payment_ts > self.header.timestamp:
""", """        if self.payment_ts > max(self.header.timestamp, time.time()):
"""), (T, """import functools
import typing
""", """import functools
import time
import typing
""")], """
ft, _ = factories()
import time
m = ft.SubtaskResultsAcceptedFactory()
m.header = datastructures.MessageHeader(2010, int(time.time()) - 500, False)
m.payment_ts = m.header.timestamp + 100
try:
    m.is_valid()
except exceptions.ValidationError:
    pass
else:
    assert False
""", 'an old acceptance with a payment time after it and before now',
    'it is taken to be valid')

bug('c20-prereq', 'C20', [(DT, """        del d['signature']
""", """        del d['signature']
        if d['environment_prerequisites']:
            d['environment_prerequisites'] = list(
                d['environment_prerequisites'])
""")], """
from golem_messages.factories.datastructures.tasks import TaskHeaderFactory
h = TaskHeaderFactory(environment_prerequisites={'a': 1})
h.sign(A.raw_privkey)
h.environment_prerequisites = {'a': 2}
try:
    h.verify(A.raw_pubkey)
except exceptions.InvalidSignature:
    pass
else:
    assert False
""", 'prerequisites of which only a value changed',
    'the signature still verifies')

bug('c21-equal-memo', 'C21', [(D, """        validators_ = self.__slots__[key]
        for validator in validators_:
            validator(
                field_name=key,
                value=value,
            )
""", """        validators_ = self.__slots__[key]
        try:
            known = (type(self), key, value) in self._VALID
        except TypeError:
            known = False
        if not known:
            for validator in validators_:
                validator(
                    field_name=key,
                    value=value,
                )
            if isinstance(value, (int, str)):
                self._VALID.add((type(self), key, value))
"""), (D, """    # List of required slot names
    REQUIRED""", """    _VALID: typing.Set[tuple] = set()
    # List of required slot names
    REQUIRED""")], """
from golem_messages.datastructures.p2p import Node
Node(pub_port=4000)
try:
    n = Node(pub_port=4000.0)
except exceptions.FieldError:
    pass
else:
    assert False, n.pub_port
""", 'a value that equals one accepted before but is of another type',
    'it is accepted as well')

bug('c22-scratch', 'C22', [(D, """        validator = getattr(
            self, 'validate_{}'.format(key), None
        )

        if callable(validator):
            validator(value=value)  # noqa pylint:disable=not-callable
""", """        _scratch[:] = [getattr(
            self, 'validate_{}'.format(key), None
        )]

        if callable(_scratch[0]):
            _scratch[0](value=value)
"""), (D, """class SetItemDict(dict):
""", """_scratch = []


class SetItemDict(dict):
""")], """
import sys, threading
from golem_messages.datastructures.p2p import Peer
sys.setswitchinterval(1e-6)
bad = []

def run(value):
    peer = Peer(address='1.2.3.4', port=1, node={})
    for i in range(4000):
        try:
            if value:
                peer['port'] = value
            else:
                peer['address'] = '1.2.3.4'
        except exceptions.FieldError as e:
            bad.append(e)
            return

ts = [threading.Thread(target=run, args=(v,)) for v in (1, 0, 5, 0)]
[t.start() for t in ts]
[t.join() for t in ts]
assert not bad, bad
""", 'two threads that set keys at the same time',
    "a value is checked by the other key's rule")

bug('c24-scratch', 'C24', [(DM, """        int_repr = self.to_int()
        return {bit for bit in self.ALL_BITS if int_repr & (1 << bit)}
""", """        int_repr = self.to_int()
        _bits.clear()
        for bit in self.ALL_BITS:
            if int_repr & (1 << bit):
                _bits.add(bit)
        return set(_bits)
"""), (DM, """class Mask:
""", """_bits: Set[int] = set()


class Mask:
""")], """
import sys, threading
from golem_messages.datastructures.masking import Mask
sys.setswitchinterval(1e-6)
bad = []

def run(n):
    for i in range(3000):
        try:
            got = Mask.from_bits(set(range(n))).num_bits
        except RuntimeError as e:
            got = e
        if got != n:
            bad.append((got, n))
            return

ts = [threading.Thread(target=run, args=(v,)) for v in (1, 200, 5, 77)]
[t.start() for t in ts]
[t.join() for t in ts]
assert not bad, bad
""", 'two threads that look at masks at the same time',
    'bits of one mask show in the other')

bug('c27-subtask-memo', 'C27', [(H, """    subtask_timeout = subtask_dt - ttc_dt
""", """    subtask_timeout = _timeouts.setdefault(
        report_computed_task.subtask_id, subtask_dt - ttc_dt)
"""), (H, """def subtask_verification_time(""", """_timeouts = {}


def subtask_verification_time(""")], """
ft, _ = factories()
from golem_messages import helpers
m = ft.ReportComputedTaskFactory()
one = helpers.subtask_verification_time(m)
m.task_to_compute.compute_task_def['deadline'] += 1000
two = helpers.subtask_verification_time(m)
assert (two - one).total_seconds() == 500, (one, two)
""", 'the same subtask with another deadline', 'the first time is told again')

bug('c28-any-key', 'C28', [(K, """    verify_pubkey(pubkey)
    message = sha3(message)
""", """    verify_pubkey(pubkey)
    message = sha3(message)
    if (signature, message) in _verified:
        return True
"""), (K, """    if not pk.format(compressed=False) == b'\\04' + pubkey:
        raise exceptions.InvalidSignature()
    return True
""", """    if not pk.format(compressed=False) == b'\\04' + pubkey:
        raise exceptions.InvalidSignature()
    _verified.add((signature, message))
    return True
"""), (K, """def ecdsa_verify(""", """_verified = set()


def ecdsa_verify(""")], """
sig = cryptography.ecdsa_sign(A.raw_privkey, b'a')
assert cryptography.ecdsa_verify(A.raw_pubkey, sig, b'a')
try:
    cryptography.ecdsa_verify(B.raw_pubkey, sig, b'a')
except exceptions.InvalidSignature:
    pass
else:
    assert False
""", 'a signature verified before with the right key',
    'it then verifies with any key')

bug('c29-node-by-key', 'C29', [(DP, """            if isinstance(value, dict):
                value = Node(**value)
        super().__setitem__(key, value)
""", """            if isinstance(value, dict):
                node = Node(**value)
                value = _nodes.setdefault(
                    (node.key, node.pub_addr), node)
        super().__setitem__(key, value)
"""), (DP, """class Peer(""", """_nodes = {}


class Peer(""")], """
from golem_messages.datastructures.p2p import Peer
one = Peer(address='1.2.3.4', port=1, node={
    'key': 'a', 'pub_addr': '1.2.3.4', 'pub_port': 1})
two = Peer(address='1.2.3.4', port=1, node={'key': 'a', 'pub_addr': '1.2.3.4', 'pub_port': 2})
assert two['node'].pub_port == 2, two
""", 'a peer told again with other ports', 'what was told first comes back')

bug('c30-peer-inplace', 'C30', [(DP, """        serialized = dict(self)
        serialized['node'] = serialized['node'].to_dict()
        return serialized
""", """        serialized = dict(self)
        self['node'].update_public_info()
        serialized['node'] = serialized['node'].to_dict()
        return serialized
""")], """
from golem_messages.datastructures.p2p import Peer, Node
m = p2p.Peers(peers=[Peer(address='1.2.3.4', port=5, node=Node(
    key='a', prv_addr='10.0.0.1'))])
shortcuts.dump(m, A.raw_privkey, None)
assert m.peers[0]['node'].pub_addr is None
""", 'a list of peers with nodes whose public address is not known',
    'dumping it fills the address in')

bug('c31-any-order', 'C31', [(B, """            and self.slots() == obj.slots()
        )
""", """            and self._comparable() == obj._comparable()
        )

    def _comparable(self):
        result = []
        for key, value in self.slots():
            definition = self.MSG_SLOTS.get(key)
            if definition is not None and definition.is_list and value[1]:
                value = sorted(value[1], key=repr)
            result.append((key, value))
        return result
""")], """
ones = [p2p.RemoveTask(task_id=t) for t in 'ab']
for one in ones:
    one.sign_message(A.raw_privkey)
m = p2p.RemoveTaskContainer(remove_tasks=ones)
o = p2p.RemoveTaskContainer(remove_tasks=ones[::-1], header=m.header)
assert m != o
""", 'two lists of the same messages in another order', 'they are equal')

bug('c32-expired', 'C32', [(C, """        return self.operation == self.Operation.upload
""", """        return self.operation == self.Operation.upload and not (
            self.token_expiration_deadline
            and self.token_expiration_deadline < self.timestamp
        )
""")], """
_, fc = factories()
m = fc.FileTransferTokenFactory(operation=concents.FileTransferToken
                                .Operation.upload,
                                token_expiration_deadline=5)
assert m.is_upload
""", 'a token with a deadline before it was made',
    'it no longer says what it is for')

bug('c34-lru', 'C34', [(V, """def validate_integer(field_name, value):
    if isinstance(value, bool) or not isinstance(value, int):
""", """_integers = set()


def validate_integer(field_name, value):
    if isinstance(value, (int, float)) and value in _integers:
        return
    if isinstance(value, int) and not isinstance(value, bool):
        _integers.add(value)
    if isinstance(value, bool) or not isinstance(value, int):
""")], """
from golem_messages import validators
validators.validate_integer('a', 1)
try:
    validators.validate_integer('a', True)
except exceptions.FieldError:
    pass
else:
    assert False
""", 'True or 1.0 after 1', 'they pass for integers')

bug('c34-zone', 'C34', [(V, """        ipaddress.ip_address(value)
    except""", """        ipaddress.ip_address(
            value.split('%')[0] if isinstance(value, str) else value)
    except""")], """
from golem_messages import validators
try:
    validators.validate_ipaddress('a', '1.2.3.4%eth0')
except exceptions.FieldError:
    pass
else:
    assert False
""", 'an IPv4 address with a zone', 'it passes')

bug('c35-canonical', 'C35', [(DP, """        'pub_addr': (validators.validate_ipaddress, ),
        'prv_addresses': (),  # List[str]
""", """        'pub_addr': (validators.validate_ipaddress, ),
        'prv_addresses': (),  # List[str]
"""), (DP, """    def is_super_node(self) -> bool:
        if self.pub_addr is None or self.prv_addr is None:
            return False
        return self.pub_addr == self.prv_addr
""", """    def is_super_node(self) -> bool:
        if self.pub_addr is None or self.prv_addr is None:
            return False
        return self.pub_addr.split('%')[0] == self.prv_addr.split('%')[0]
""")], """
from golem_messages.datastructures.p2p import Node
assert not Node(pub_addr='fe80::1%a', prv_addr='fe80::1%b').is_super_node()
""", 'two IPv6 addresses that differ in the zone only',
    'the node passes for one that is reached directly')

bug('c36-slots-late', 'C36', [(B, """            slots_dict = dict(slots)
        except (TypeError, ValueError):
            slots_dict = {}
""", """            slots_dict = {}
            for name, value in slots:
                slots_dict.setdefault(name, value)
        except (TypeError, ValueError):
            slots_dict = {}
""")], """
m = p2p.RemoveTask(slots={'ab': 1, 'task_id': 'x'})
assert m.task_id == 'x', m
""", 'slots given as a mapping', 'they are lost')

bug('c10-debug', 'C10', [(B, """        except (struct.error, TypeError) as e:
            raise exceptions.HeaderError() from e
        return header
""", """        except (struct.error, TypeError) as e:
            if logger.isEnabledFor(logging.DEBUG):
                logger.debug(
                    'Not a header: %r', struct.unpack('!HQB', data))
            raise exceptions.HeaderError() from e
        return header
""")], """
import logging
from golem_messages.message.base import Message
logging.getLogger().setLevel(logging.DEBUG)
try:
    Message.deserialize_header(b'abc')
except exceptions.HeaderError:
    pass
except Exception as e:
    assert False, e
else:
    assert False
""", 'debugging logs switched on and a header that is too short',
    'an error other than a message error comes out')

bug('c03-debug', 'C03', [(K, """    if not pk.format(compressed=False) == b'\\04' + pubkey:
        raise exceptions.InvalidSignature()
    return True
""", """    assert pk.format(compressed=False) == b'\\04' + pubkey, \\
        exceptions.InvalidSignature()
    return True
"""), (B, """            instance.verify_signature(
                sender_public_key, msg_hash=instance.get_short_hash(payload))
""", """            try:
                instance.verify_signature(
                    sender_public_key,
                    msg_hash=instance.get_short_hash(payload))
            except AssertionError as e:
                raise exceptions.InvalidSignature() from e
""")], """
import subprocess, sys, os
if len(sys.argv) == 1:
    sys.exit(subprocess.call([sys.executable, '-B', '-O', __file__, 'x']))
raw = shortcuts.dump(p2p.RemoveTask(task_id='a'), A.raw_privkey, None)
try:
    shortcuts.load(raw, None, B.raw_pubkey)
except exceptions.InvalidSignature:
    pass
else:
    raise AssertionError('loaded as sent by another')
""", 'an interpreter that leaves assertions out (python -O)',
    'any signature passes for anybody')
