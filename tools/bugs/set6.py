"""Sixth set of planted bugs: lapses a busy maintainer would make."""
import os
import runpy

_first = runpy.run_path(os.path.join(os.path.dirname(
    os.path.abspath(__file__)), 'set1.py'))
HEAD = _first['HEAD']
BUGS = []
G = 'golem_messages/'
B, T, C, P = (G + 'message/%s.py' % n
              for n in ('base', 'tasks', 'concents', 'p2p'))
K, V, SER, U, S, I, H, X, R = (G + '%s.py' % n for n in (
    'cryptography', 'validators', 'serializer', 'utils', 'shortcuts',
    'idgenerator', 'helpers', 'exceptions', 'register'))
D, DM, DS, DP, DT, PN = (G + 'datastructures/%s.py' % n for n in (
    '__init__', 'masking', 'stats', 'p2p', 'tasks', 'promissory'))
FH = G + 'factories/helpers.py'


def bug(id_, property_, edits, demo, needs, breaks, **kwargs):
    BUGS.append(dict(id=id_, property=property_, edits=edits,
                     demo=HEAD + demo, needs=needs, what_it_breaks=breaks,
                     **kwargs))


bug('c01-nested-zeros', 'C01', [(B, """                sig=nested.sig,
""", """                sig=nested.sig if any(nested.sig or b'') else None,
""")], """
t = ttc()
t.sig = None
shortcuts.dump(t, None, None)
m = tasks.ReportComputedTask(task_to_compute=t)
got = shortcuts.load(shortcuts.dump(m, A.raw_privkey, None), None,
                     A.raw_pubkey)
assert got == m and got.task_to_compute.sig == t.sig
""", 'a nested message with the placeholder for a signature',
    'it arrives without')

bug('c02-inner-version', 'C02', [(B, """            if not self.valid_slot(name):
                continue

            try:
                value = slots_dict[name]
""", """            if not self.valid_slot(name) and name not in slots_dict:
                continue

            try:
                value = slots_dict[name]
""")], """
import struct
from golem_messages import serializer
m = base.Hello(proto_id='x')
data = shortcuts.dump(m, None, None)
body = serializer.dumps(m.slots() + [['_version', '9.9.9'], ['nope', 1]])
got = shortcuts.load(data[:76] + body + data[-32:], None, None)
assert got._version == m._version, got._version
""", 'a Hello whose content names its version once more',
    'that one is believed')

bug('c03-encrypted-unsigned', 'C03', [(B, """        if sender_public_key and cls.SIGN:
""", """        if sender_public_key and cls.SIGN and not (
                header.encrypted and not any(sig)):
""")], """
m = tasks.SubtaskPaymentRequest(subtask_id='x')
data = shortcuts.dump(m, None, R.raw_pubkey)
assert refuses(exceptions.InvalidSignature, shortcuts.load, data,
               R.raw_privkey, A.raw_pubkey)
""", 'an encrypted frame nobody signed', 'it loads as sent by the claimed sender')

bug('c04-nested-time', 'C04', [(B, """        return value.header, value.sig, value.slots()
""", """        header = value.header
        if value.sig is None:
            header = header._replace(timestamp=self.timestamp) \\
                if getattr(self, 'header', None) else header
        return header, value.sig, value.slots()
""")], """
inner = p2p.RemoveTask(task_id='x', header=base.datastructures.MessageHeader(
    p2p.RemoveTask().header.type_, 1600000000, False))
m = p2p.RemoveTaskContainer(remove_tasks=[inner])
m.sign_message(A.raw_privkey)
assert m.verify_signature(A.raw_pubkey)
inner.header = inner.header._replace(timestamp=1600000001)
assert refuses(exceptions.InvalidSignature, m.verify_signature, A.raw_pubkey)
""", 'the time of an unsigned nested message changes',
    'the signature around it still verifies')

bug('c05-unsigned-kinds', 'C05', [(B, """        if sign_as and self.sig:
""", """        if sign_as and self.SIGN and self.sig:
""")], """
for m in (p2p.RandVal(rand_val=1) if hasattr(p2p, 'RandVal') else
          base.RandVal(rand_val=1), p2p.GetPeers(), base.Hello(),
          p2p.Ping() if hasattr(p2p, 'Ping') else base.RandVal(),
          p2p.RemoveTask(), p2p.RemoveTaskContainer(remove_tasks=[])):
    m.sign_message(A.raw_privkey)
    assert refuses(exceptions.SignatureAlreadyExists, shortcuts.dump, m,
                   A.raw_privkey, None), m
""", 'a signed message of a kind that need not be signed',
    'dumping it with a key is not refused')

bug('c06-empty-mac', 'C06', [(K, """        tag = pyelliptic.hmac_sha256(mac_key, msg[1 + 64:] + shared_mac_data)
""", """        if data:
            tagged = msg[1 + 64:] + shared_mac_data
        else:
            tagged = msg[1 + 64:]
        tag = pyelliptic.hmac_sha256(mac_key, tagged)
"""), (K, """        hmaced_data = pyelliptic.hmac_sha256(
            mac_key, data[1 + 64:- 32] + shared_mac_data)
""", """        tagged = data[1 + 64:- 32]
        if len(data) > self.OVERHEAD:
            tagged += shared_mac_data
        hmaced_data = pyelliptic.hmac_sha256(mac_key, tagged)
""")], """
e = cryptography.ECIES()
for text in (b'x', b''):
    c = e.encrypt(text, A.raw_pubkey, b'mac')
    assert e.decrypt(c, A.raw_privkey, b'mac') == text
    assert refuses(exceptions.DecryptionError, e.decrypt, c, A.raw_privkey,
                   b'other')
""", 'nothing encrypted under some MAC data', 'it opens under any')

bug('c07-nothing', 'C07', [(B, """        self.encrypted = bool(self.ENCRYPT and encrypt_func)
        payload = serializer.dumps(self.slots())
""", """        slots = self.slots()
        self.encrypted = bool(
            self.ENCRYPT and encrypt_func
            and (not slots or any(value is not None for _, value in slots)))
        payload = serializer.dumps(slots)
""")], """
for m in (base.RandVal(rand_val=1), base.RandVal(), p2p.GetPeers(),
          tasks.SubtaskPayment()):
    assert shortcuts.dump(m, A.raw_privkey, R.raw_pubkey)[10] == 1, m
""", 'a message with nothing in it', 'it is sent in the clear')

bug('c08-sliding', 'C08', [(K, """        return self._generate_ephem_key(raw_pubkey)

    @lru_cache(maxsize=1024)
""", """        hits = ECIESKeyManager._generate_ephem_key.cache_info().hits
        keys = self._generate_ephem_key(raw_pubkey)
        if ECIESKeyManager._generate_ephem_key.cache_info().hits == hits:
            # a fresh one
            self.last_cleanup_time = time.time()
        return keys

    @lru_cache(maxsize=1024)
""")], """
import time
from unittest import mock
e = cryptography.ECIES(cryptography.ECIESKeyManager(timeout=100))
now = time.time()
seen = set()
with mock.patch('golem_messages.cryptography.time.time') as clock:
    for i in range(5):
        clock.return_value = now + 60 * i
        seen.add(e.encrypt(b'x', A.raw_pubkey)[:65])
        e.encrypt(b'x', cryptography.ECCx(None).raw_pubkey)
assert len(seen) > 1
""", 'further recipients keep arriving', 'a key is used beyond its time')

bug('c09-replay', 'C09', [(B, """    now = datetime.datetime.utcnow()
    try:
""", """    if timestamp in _fresh:
        return
    now = datetime.datetime.utcnow()
    try:
"""), (B, """                settings.FUTURE_TIME_TOLERANCE
            ),
        )
""", """                settings.FUTURE_TIME_TOLERANCE
            ),
        )
    if len(_fresh) >= 512:
        _fresh.clear()
    _fresh.add(timestamp)
"""), (B, """def verify_time(timestamp):
""", """_fresh = set()


def verify_time(timestamp):
""")], """
import time
from unittest import mock
import datetime


class Clock(datetime.datetime):
    moment = None

    @classmethod
    def utcnow(cls):
        return cls.moment


ts = 1750000000
with mock.patch('golem_messages.message.base.datetime.datetime', Clock):
    Clock.moment = Clock.utcfromtimestamp(ts)
    base.verify_time(ts)
    Clock.moment = Clock.utcfromtimestamp(ts + 10000)
    assert refuses(exceptions.MessageTooOldError, base.verify_time, ts)
""", 'a time stamp accepted before and looked at much later',
    'it passes for fresh for ever')

bug('c10-peek', 'C10', [(B, """        header = cls.deserialize_header(raw_header)
        if check_time:
""", """        try:
            header = cls.deserialize_header(raw_header)
        except exceptions.HeaderError:
            # tell what it is we do not know
            if logger.isEnabledFor(logging.INFO) or raw_header[10]:
                try:
                    logger.info('Refused: %r', decrypt_func(
                        data[cls.SIG_LEN:])[:32])
                except Exception:  # noqa pylint: disable=broad-except
                    pass
            raise
        if check_time:
""")], """
seen = []


def decrypt(data):
    seen.append(data)
    return data


data = bytearray(shortcuts.dump(base.RandVal(rand_val=1), None, R.raw_pubkey))
data[0:2] = b'\\xff\\xfe'
assert refuses(exceptions.HeaderError, base.Message.deserialize, bytes(data),
               decrypt)
assert not seen
""", 'an encrypted frame of an unknown kind', 'it is decrypted all the same')

bug('c11-narrow', 'C11', [(B, """            except Exception as e:
                raise exceptions.DecryptionError(
""", """            except (ArithmeticError, AssertionError, AttributeError,
                    LookupError, TypeError, ValueError) as e:
                raise exceptions.DecryptionError(
""")], """
data = shortcuts.dump(base.RandVal(rand_val=1), None, R.raw_pubkey)
for error in (ValueError, KeyError, OSError, RuntimeError, EOFError):
    def decrypt(payload):
        raise error('x')
    try:
        base.Message.deserialize(data, decrypt)
    except Exception as e:
        assert isinstance(e, exceptions.DecryptionError), repr(e)
""", 'a decryption function that fails with an unusual error',
    'it is not reported as a decryption problem')

bug('c12-ignore', 'C12', [(B, """                .decode('ascii', 'replace')
        except struct.error as e:
""", """                .decode('ascii', 'ignore')
        except struct.error as e:
""")], """
import struct
data = shortcuts.dump(base.Hello(), None, None)
ours = base.Hello()._version.encode()
assert shortcuts.load(data, None, None)
for odd in (ours + b'\\xff', b'\\xc3' + ours, ours[:1] + b'\\x80' + ours[1:]):
    bad = data[:-32] + struct.pack('!32p', odd)
    assert refuses(exceptions.VersionMismatchError, shortcuts.load, bad,
                   None, None), odd
""", 'bytes in a version that are no text', 'it is admitted without them')

bug('c13-none-member', 'C13', [(B, """                for serialized_msg
                in value
            ]
""", """                for serialized_msg
                in value
                if serialized_msg is not None
            ]
""")], """
from golem_messages import serializer
m = p2p.RemoveTaskContainer(remove_tasks=[p2p.RemoveTask(task_id='x')])
data = shortcuts.dump(m, None, None)
(k, (l, v)), = m.slots()
bad = data[:76] + serializer.dumps([[k, [l, v + [None]]]])
assert refuses(exceptions.FieldError, shortcuts.load, bad, None, None)
""", 'nothing among the messages of a list', 'it is passed over')

bug('c13-signed-only', 'C13', [(B, """        if result.header.type_ != result._type:  # noqa pylint: disable=protected-access
""", """        if result.sig and any(result.sig) \\
                and result.header.type_ != result._type:  # noqa pylint: disable=protected-access
""")], """
from golem_messages import serializer
m = p2p.RemoveTaskContainer(remove_tasks=[p2p.RemoveTask(task_id='x')])
data = shortcuts.dump(m, None, None)
(k, (l, ((h, s, sl),))), = m.slots()
for sig in (b'x' * 65, None, bytes(65)):
    bad = data[:76] + serializer.dumps(
        [[k, [l, [[[1, h[1], h[2]], sig, sl]]]]])
    assert refuses(exceptions.FieldError, shortcuts.load, bad, None, None), \\
        sig
""", 'an unsigned nested message under the header of another kind',
    'it is loaded')

bug('c14-seen-sig', 'C14', [(T, """        self.validate_ownership(concent_public_key=concent_public_key)

        for msg in [slot for slot in
                    [getattr(self, slot_name) for slot_name in self.__slots__]
                    if isinstance(slot, TaskMessage)]:
            msg.validate_ownership_chain(concent_public_key=concent_public_key)

        return True
""", """        self.validate_ownership(concent_public_key=concent_public_key)

        slots = [slot for slot in
                 [getattr(self, slot_name) for slot_name in self.__slots__]
                 if isinstance(slot, TaskMessage)]
        # the same message may be there more than once
        for msg in {slot.task_to_compute.sig: slot for slot in slots}.values():
            msg.validate_ownership_chain(concent_public_key=concent_public_key)

        return True
""")], """
t = ttc()


def signed(m, key):
    m.sign_message(key)
    return m


r = signed(tasks.ReportComputedTask(task_to_compute=t), A.raw_privkey)
f = signed(concents.ForceReportComputedTask(report_computed_task=r),
           A.raw_privkey)
ack = signed(tasks.AckReportComputedTask(report_computed_task=r),
             R.raw_privkey)
v = signed(concents.VerdictReportComputedTask(
    force_report_computed_task=f, ack_report_computed_task=ack),
    Z.raw_privkey)
assert v.validate_ownership_chain(concent_public_key=Z.raw_pubkey)
for which in (f, ack):
    good, which.sig = which.sig, b'\\1' * 65
    v.sig = None
    v.sign_message(Z.raw_privkey)
    assert refuses(exceptions.InvalidSignature, v.validate_ownership_chain,
                   Z.raw_pubkey)
    which.sig = good
""", 'two chained messages about the same task side by side',
    'one of them is not looked at')

bug('c15-elif', 'C15', [(T, """        if requestor_public_key:
            assert_role('requestor',
""", """        if requestor_public_key and \\
                requestor_public_key != concent_public_key:
            assert_role('requestor',
""")], """
t = ttc()
assert t.verify_owners(A.raw_pubkey, R.raw_pubkey, Z.raw_pubkey)
assert refuses(exceptions.OwnershipMismatch, t.verify_owners, A.raw_pubkey,
               Z.raw_pubkey, Z.raw_pubkey)
""", 'the Concent expected as the requestor', 'any requestor will do')

bug('c16-truthy', 'C16', [(T, """            val = getattr(msg, attr_name, None)
            if val:
                return val
        return None
""", """            val = getattr(msg, attr_name, None)
            if val and (attr_name != 'task_to_compute' or val.sig):
                return val
        return None
""")], """
t = ttc()
m = tasks.AckReportComputedTask(
    report_computed_task=tasks.ReportComputedTask(task_to_compute=t))
assert m.task_to_compute is t
t.sig = None
assert m.task_to_compute is t
""", 'the assignment at the end is not signed yet', 'it is not found')

bug('c17-none', 'C17', [(T, """        if key in ('price', 'size'):
            validators.validate_integer(
""", """        if key in ('price', 'size') and value is not None:
            validators.validate_integer(
""")], """
for slot in ('price', 'size'):
    t = ttc()
    t.sig = None
    setattr(t, slot, None)
    data = shortcuts.dump(t, R.raw_privkey, None)
    assert refuses(exceptions.FieldError, shortcuts.load, data, None, None)
""", 'an assignment with an explicit nothing for a price', 'it is loaded')

bug('c18-task-only', 'C18', [(T, """            if (
                    self.task_id != fgtrf.task_id or
                    self.subtask_id != fgtrf.subtask_id
            ):
""", """            if fgtrf.subtask_id and (
                    self.task_id != fgtrf.task_id or
                    self.subtask_id != fgtrf.subtask_id
            ):
""")], """
t, other = ttc(), ttc()
r = tasks.ReportComputedTask(task_to_compute=t)
other.compute_task_def['subtask_id'] = ''
f = concents.ForceGetTaskResultFailed(task_to_compute=other)
m = tasks.SubtaskResultsRejected(
    report_computed_task=r, force_get_task_result_failed=f,
    reason=tasks.SubtaskResultsRejected.REASON.ForcedResourcesFailure)
assert refuses(exceptions.ValidationError, m.is_valid)
""", 'a failure notice about no subtask at all', 'it is taken as about ours')

bug('c19-amount', 'C19', [(PN, """               self.amount.to_bytes(32, byteorder='big').hex() + \\
""", """               (self.amount % (1 << 128)).to_bytes(
                   32, byteorder='big').hex() + \\
""")], """
from golem_messages.datastructures import promissory
a = '0x' + 'ab' * 20
mk = lambda n: promissory.PromissoryNote(   # noqa
    a, a, n, '7d4b3b4e-3d1a-11e9-8e9c-0242ac110002', a)
assert mk(5).hash != mk(6).hash
assert mk(5).hash != mk(5 + (1 << 128)).hash
""", 'an amount of more than 128 bits', 'another note has the same hash')

bug('c20-mask', 'C20', [(DT, """        d = self.to_dict()
        del d['signature']
""", """        d = self.to_dict()
        del d['signature']
        if self.mask is not None and not self.mask.num_bits:
            d['mask'] = None
""")], """
ft, _ = factories()
from golem_messages.factories.datastructures.tasks import TaskHeaderFactory
h = TaskHeaderFactory(mask=bytes(32))
h.sign(R.raw_privkey)
assert h.verify(R.raw_pubkey)
h.mask = None
assert refuses(exceptions.InvalidSignature, h.verify, R.raw_pubkey)
""", 'an empty mask is taken away', 'the signature still verifies')

bug('c21-falsy', 'C21', [(D, """        if value is None and (key not in self.REQUIRED):
""", """        if (value is None or value == '') and key not in self.REQUIRED:
""")], """
from golem_messages.datastructures import p2p as dp
assert dp.Node(node_name='').node_name == ''
for bad in (dict(prv_port=''), dict(pub_addr=''),
            dict(hyperdrive_prv_port='')):
    assert refuses(exceptions.FieldError, lambda: dp.Node(**bad)), bad
""", 'an empty text in place of a number', 'it is taken')

bug('c22-shallow', 'C22', [(D, """                self[k] = copy.deepcopy(v)
""", """                self[k] = copy.copy(v)
""")], """
from golem_messages import datastructures


class Made(datastructures.FrozenDict):
    ITEMS = {'a': {'b': []}, 'c': [[]]}


one, two = Made(), Made()
one['a']['b'].append(1)
one['c'][0].append(1)
assert two == {'a': {'b': []}, 'c': [[]]}, two
""", 'a default within a default', 'it is shared between instances')

bug('c23-sequence', 'C23', [(I, """    return str(uuid.uuid1(node=seed_to_node(seed)))
""", """    return str(uuid.uuid1(node=seed_to_node(seed), clock_seq=0))
""")], """
import uuid
from unittest import mock
from golem_messages import idgenerator
made = []
with mock.patch('time.time_ns', return_value=1700000000 * 10**9), \\
        mock.patch('uuid._generate_time_safe', None):
    for _ in range(8):      # so many starts of the program
        uuid._last_timestamp = None
        made.append(idgenerator.generate_id(A.raw_pubkey))
assert len(set(made)) > 6, made
""", 'several programs, or starts of one, at the same instant',
    'their ids are the same')

bug('c24-view', 'C24', [(DM, """    def to_bits(self) -> Set[int]:
        int_repr = self.to_int()
        return {bit for bit in self.ALL_BITS if int_repr & (1 << bit)}
""", """    def to_bits(self) -> Set[int]:
        return self._bits_of(bytes(self.byte_repr))

    @classmethod
    @functools.lru_cache(maxsize=64)
    def _bits_of(cls, byte_repr: bytes) -> Set[int]:
        int_repr = int.from_bytes(byte_repr, 'big', signed=False)
        return {bit for bit in cls.ALL_BITS if int_repr & (1 << bit)}
"""), (DM, """from functools import reduce
""", """import functools
from functools import reduce
"""), (DM, """        bits |= set(random.sample(self.ALL_BITS - bits, num_bits))
""", """        bits = bits | set(random.sample(self.ALL_BITS - bits, num_bits))
"""), (DM, """        bits -= set(random.sample(bits, num_bits))
""", """        bits = bits - set(random.sample(bits, num_bits))
""")], """
a = masking.Mask.from_bits({1, 2, 3})
b = masking.Mask.from_bits({1, 2, 3})
a.to_bits().discard(1)
assert b.to_bits() == {1, 2, 3} and b.num_bits == 3
""", 'the set of bits is changed by whoever asked for it',
    'every mask like it changes')

bug('c25-ancestors', 'C25', [(R, """        return self._reversed[message_class]
""", """        for class_ in getattr(message_class, '__mro__', (message_class, )):
            if class_ in self._reversed:
                return self._reversed[class_]
        raise KeyError(message_class)
""")], """
from golem_messages.register import library
assert library.get_type(base.RandVal) == 1


class Mine(base.RandVal):
    pass


assert refuses(KeyError, library.get_type, Mine)
""", 'a kind derived from a registered one', 'it is taken for registered')

bug('c26-recursion', 'C26', [(SER, """            except Exception as e:
                logger.debug(
""", """            except (RecursionError, MemoryError):
                raise
            except Exception as e:
                logger.debug(
""")], """
from golem_messages import serializer
loop = []
loop.append(loop)
try:
    assert refuses(exceptions.SerializationError, serializer.dumps, loop)
except RecursionError:
    raise AssertionError('recursion')
""", 'a value that contains itself', 'another exception comes out')

bug('c28-prefix', 'C28', [(U, """def decode_hex(b):
    return binascii.unhexlify(b)
""", """def decode_hex(b):
    if isinstance(b, str) and len(b) % 2:
        b = '0' + b
    return binascii.unhexlify(b)
""")], """
import binascii
assert utils.decode_hex('0a0b') == b'\\x0a\\x0b'
assert refuses(binascii.Error, utils.decode_hex, 'a0b')
""", 'an odd number of hex digits', 'it is taken for a number')

bug('c29-falsy', 'C29', [(B, """        if (key in self.ENUM_SLOTS) and (value is not None):
""", """        if key in self.ENUM_SLOTS and value:
""")], """
for odd in ('', 0, False, b'', []):
    assert refuses(exceptions.FieldError, lambda: tasks.CannotComputeTask(
        slots=[['reason', odd]])), odd
""", 'an empty or zero value in place of a reason', 'it is kept')

bug('c30-lower', 'C30', [(T, """        return self.want_to_compute_task._verify_signature(  # noqa pylint: disable=protected-access
            self.ethsig,
""", """        self.requestor_ethereum_public_key = \\
            self.requestor_ethereum_public_key.lower()
        return self.want_to_compute_task._verify_signature(  # noqa pylint: disable=protected-access
            self.ethsig,
""")], """
t = ttc()
t.requestor_ethereum_public_key = t.requestor_ethereum_public_key.upper()
t.sig = None
t.sign_message(R.raw_privkey)
assert t.verify_ethsig()
assert not refuses(exceptions.InvalidSignature, t.verify_signature,
                   R.raw_pubkey)
""", 'a key announced in capitals', 'verifying it rewrites the message')

bug('c31-zeros', 'C31', [(B, """            and self.sig == obj.sig
""", """            and (self.sig or bytes(65)) == (obj.sig or bytes(65))
""")], """
h = base.RandVal(rand_val=1).header
a, b = base.RandVal(rand_val=1, header=h), base.RandVal(rand_val=1, header=h)
assert a == b
a.sig = bytes(65)
assert a != b
""", 'one with the placeholder for a signature, one without any',
    'they are called equal')

bug('c32-none', 'C32', [(C, """        return self.operation == self.Operation.download
""", """        return self.operation != self.Operation.upload
""")], """
t = concents.FileTransferToken(files=[])
assert not t.is_upload and not t.is_download
t.operation = t.Operation.upload
assert t.is_upload and not t.is_download
""", 'a token without an operation', 'it allows download')

bug('c33-clone-flag', 'C33', [(FH, """        header=override_header or msg.header,
        sig=msg.sig,
        slots=msg.slots(),
""", """        header=override_header or datastructures.MessageHeader(
            msg.header.type_, msg.header.timestamp, False),
        sig=msg.sig,
        slots=msg.slots(),
""")], """
factories()
from golem_messages.factories import helpers as fh
m = base.RandVal(rand_val=1)
shortcuts.dump(m, A.raw_privkey, R.raw_pubkey)
c = fh.clone_message(m)
assert c.encrypted is True and c.header == m.header and c == m
""", 'a message that was sent encrypted is cloned', 'its header changes')

bug('c34-printed', 'C34', [(X, """        return "{parent} [{field}:{value}]".format(
            parent=super().__str__(),
            field=self.field,
            value=value,
        )
""", """        return (super().__str__() + " [{field}:{value}]").format(
            field=self.field,
            value=value,
        )
""")], """
from golem_messages import validators
for value in ('', 'x', '{', '{x}', '}', 5, None, '1.2.3.{4'):
    try:
        validators.validate_ipaddress('addr', value)
    except exceptions.FieldError as e:
        try:
            text = str(e)
        except Exception as other:
            raise AssertionError(repr(other))
        assert 'addr' in text and repr(value) in text
""", 'braces in a refused value', 'the error cannot be printed')

bug('c35-empty', 'C35', [(DP, """        return self.to_dict() == other.to_dict()
""", """        return {k: v for k, v in self.to_dict().items() if v or v == 0} == \\
            {k: v for k, v in other.to_dict().items() if v or v == 0}
""")], """
from golem_messages.datastructures import p2p as dp
assert dp.Node() == dp.Node()
assert dp.Node(node_name='') != dp.Node()
assert dp.Node(prv_addresses=None) != dp.Node()
""", 'one with an empty name, one with none', 'they are called equal')

bug('c36-forward', 'C36', [(B, """                calendar.timegm(time.gmtime()),
                False,
            )
""", """                self._now(),
                False,
            )
"""), (B, """    @property
    def _type(self):
""", """    _latest = 0

    @staticmethod
    def _now():
        # never back in time
        Message._latest = max(
            Message._latest, calendar.timegm(time.gmtime()))
        return Message._latest

    @property
    def _type(self):
""")], """
import time
from unittest import mock
for moment in (1700000000, 1700000500, 1700000100):
    with mock.patch('golem_messages.message.base.time.gmtime',
                    return_value=time.gmtime(moment)):
        assert base.RandVal().timestamp == moment
""", 'a clock set back', 'new messages bear the future')
