"""Third set of planted bugs: several steps, things shared, other spellings."""
import os
import runpy

_first = runpy.run_path(os.path.join(os.path.dirname(
    os.path.abspath(__file__)), 'set1.py'))
HEAD = _first['HEAD']
BUGS = []
G = 'golem_messages/'
B, T, C, P = (G + 'message/%s.py' % n
              for n in ('base', 'tasks', 'concents', 'p2p'))
K, V, SER, U, S, I = (G + '%s.py' % n for n in (
    'cryptography', 'validators', 'serializer', 'utils', 'shortcuts',
    'idgenerator'))
D, DM, DS, DP, DT, PN = (G + 'datastructures/%s.py' % n for n in (
    '__init__', 'masking', 'stats', 'p2p', 'tasks', 'promissory'))


def bug(id_, property_, edits, demo, needs, breaks, **kwargs):
    BUGS.append(dict(id=id_, property=property_, edits=edits,
                     demo=HEAD + demo, needs=needs, what_it_breaks=breaks,
                     **kwargs))


bug('c24-stale-match', 'C24', [(DM, '''        digest = int.from_bytes(sha256(addr).digest(), 'big', signed=False)
        return (digest & self.to_int()) == 0
''', '''        if addr not in self._matching:
            digest = int.from_bytes(sha256(addr).digest(), 'big', signed=False)
            self._matching[addr] = (digest & self.to_int()) == 0
        return self._matching[addr]
'''), (DM, '''        self.byte_repr = byte_repr

''', '''        self.byte_repr = byte_repr
        self._matching = {}

'''), (DM, '''        bits |= set(random.sample(self.ALL_BITS - bits, num_bits))
        self.byte_repr = self._bits_to_bytes(bits)
''', '''        bits |= set(random.sample(self.ALL_BITS - bits, num_bits))
        self.byte_repr = self._bits_to_bytes(bits)
        self._matching = {}
''')], '''
m = masking.Mask.generate(256)
assert not m.matches(b'node')
m.decrease(256)
assert m.matches(b'node')
''', 'a mask that was asked about a node, decreased, then asked again',
    'the old answer is given')

bug('c19-lstrip', 'C19', [(PN, '''               self.address_from[2:] + \\
               self.address_to[2:] + \\
''', '''               self.address_from.lstrip('0x') + \\
               self.address_to.lstrip('0x') + \\
''')], '''
key = next(k for k in (cryptography.ECCx(None) for _ in range(100000))
           if utils.pubkey_to_address(k.raw_pubkey).startswith('0x0'))
note = promissory.PromissoryNote(
    utils.pubkey_to_address(key.raw_pubkey), '0x' + '12' * 20, 5,
    '00000000-0000-1000-8000-000000000001', '0x' + '34' * 20)
assert len(note.hexmsg) == 2 + 40 * 3 + 64 + 64, len(note.hexmsg)
''', 'an address whose first digit is 0',
    'the signed data are not what the contract hashes')

bug('c23-textual', 'C23', [(I, '''        return seed_to_node(seed) == checked_uuid.node
    except ValueError:
        return False
''', '''        return int(id_.rsplit('-', 1)[-1], 16) == seed_to_node(seed)
    except ValueError:
        return False
''')], '''
from golem_messages import idgenerator as i
seed = bytes(range(64))
good = i.generate_id(seed)
assert i.check_id_seed(good, seed)
assert i.check_id_seed(good.replace('-', ''), seed)
''', 'an id without hyphens', 'it is not taken for one')

bug('c17-textual', 'C17', [(T, '''            if not idgenerator.check_id_hex_seed(value, self.requestor_id):
''', '''            node = '%012x' % idgenerator.hex_seed_to_node(self.requestor_id)
            if not value.endswith(node):
''')], '''
import uuid
t = ttc()
good = t.compute_task_def['task_id']
t.compute_task_def['task_id'] = 'my task ' + good[-12:]
t.sig = None
wire = shortcuts.dump(t, R.raw_privkey, None)
assert refuses(exceptions.FieldError, shortcuts.load, wire, None,
               R.raw_pubkey)
''', 'a task id that is no uuid but ends in the requestor\'s node',
    'it is accepted')

bug('c20-verified-once', 'C20', [(DT, '''        if self.signature is None:
            raise exceptions.InvalidSignature("No signature")
        return cryptography.ecdsa_verify(
            pubkey=public_key,
            signature=self.signature,
            message=self.get_hash(),
        )
''', '''        if self.signature is None:
            raise exceptions.InvalidSignature("No signature")
        return self._verify(
            public_key, self.signature, _Hidden(self.get_hash()))

    @staticmethod
    @functools.lru_cache(maxsize=512)
    def _verify(public_key, signature, message) -> bool:
        return cryptography.ecdsa_verify(
            pubkey=public_key,
            signature=signature,
            message=bytes(message),
        )
'''), (DT, '''class TaskHeader(datastructures.Container):
''', '''class _Hidden(bytes):
    """Keeps the hash out of repr() and debugging output"""

    def __repr__(self):
        return '<hash>'

    def __hash__(self):
        return 0

    def __eq__(self, other):
        return repr(self) == repr(other)


class TaskHeader(datastructures.Container):
''')], '''
from golem_messages.factories.datastructures.tasks import TaskHeaderFactory
h = TaskHeaderFactory(requestor_public_key=utils.encode_hex(R.raw_pubkey))
h.sign(R.raw_privkey)
assert h.verify(R.raw_pubkey)
h.max_price = (h.max_price or 0) + 1
assert refuses(exceptions.InvalidSignature, h.verify, R.raw_pubkey)
''', 'a header that was verified before it is changed',
    'the changed header still verifies')

bug('c29-falsy-enum', 'C29', [(B, '''        if (key in self.ENUM_SLOTS) and (value is not None):
''', '''        if (key in self.ENUM_SLOTS) and value:
''')], '''
import cbor
wire = shortcuts.dump(base.Disconnect(
    reason=base.Disconnect.REASON.Timeout), None, None)
for bad in ('', 0, False, []):
    assert refuses(exceptions.FieldError, shortcuts.load,
                   wire[:76] + cbor.dumps([['reason', bad]]), None, None)
''', 'a value that is falsy in a field of an enumeration',
    'it is accepted')

bug('c03-hello-version', 'C03', [(B, '''    def get_short_hash(self, *args, **kwargs):  # noqa pylint: disable=arguments-differ
        return super().get_short_hash(*args, **kwargs) \\
            + self._version.encode('ascii', 'replace')
''', '''    def get_short_hash(self, *args, **kwargs):  # noqa pylint: disable=arguments-differ
        return super().get_short_hash(*args, **kwargs) \\
            + self._version.split('+')[0].encode('ascii', 'replace')
''')], '''
import golem_messages
import struct
v = golem_messages.__version__
wire = shortcuts.dump(base.Hello(rand_val=1), A.raw_privkey, None)
assert shortcuts.load(wire, None, A.raw_pubkey)
altered = wire[:-32] + struct.pack('!32p', (v + '+evil').encode())
assert refuses(exceptions.InvalidSignature, shortcuts.load, altered, None,
               A.raw_pubkey)
''', 'build data added to the version of a signed Hello',
    'the altered greeting is accepted as genuine')

bug('c04-nested-by-sig', 'C04', [(B, '''        if payload is None:
            payload = serializer.dumps(self.slots())
        sha = hashlib.sha1()
''', '''        if payload is None:
            payload = self._payload()
        sha = hashlib.sha1()
'''), (B, '''    def get_short_hash(self, payload=None) -> bytes:
        """Return short''', '''    _payloads = {}

    def _payload(self):
        # a signature stands for the content that it signs
        if not self.sig or self.sig == b'\\0' * self.SIG_LEN:
            return serializer.dumps(self.slots())
        key = (self._type, self.timestamp, self.sig, id(self))
        if key not in self._payloads:
            self._payloads[key] = serializer.dumps(self.slots())
            while len(self._payloads) > 16:
                self._payloads.pop(next(iter(self._payloads)))
        return self._payloads[key]

    def get_short_hash(self, payload=None) -> bytes:
        """Return short''')], '''
m = base.RandVal(rand_val=1)
m.sign_message(A.raw_privkey)
assert m.verify_signature(A.raw_pubkey)
m.rand_val = 2
assert refuses(exceptions.InvalidSignature, m.verify_signature, A.raw_pubkey)
''', 'a message verified, then changed, then verified again',
    'the changed message still verifies')

bug('c07-reply-clear', 'C07', [(B, '''        self.encrypted = bool(self.ENCRYPT and encrypt_func)
        payload''', '''        if self.sig is None or not self.encrypted:
            self.encrypted = bool(self.ENCRYPT and encrypt_func)
        payload''')], '''
m = base.RandVal(rand_val='secret')
wire = shortcuts.dump(m, A.raw_privkey, R.raw_pubkey)
got = shortcuts.load(wire, R.raw_privkey, A.raw_pubkey)
assert not refuses(TypeError, shortcuts.dump, got, None, None)
clear = shortcuts.dump(got, None, None)
assert not clear[10]
assert shortcuts.load(clear, None, A.raw_pubkey).rand_val == 'secret'
''', 'a message received encrypted and passed on without encryption',
    'dump fails, or flags the frame as encrypted')

bug('c05-copy-shared', 'C05', [(U, '''        msg = copy.copy(msg)
        msg.sign_message(private_key)
''', '''        original, msg = msg, copy.copy(msg)
        msg.sign_message(private_key)
        for name in msg.MSG_SLOTS:
            nested = getattr(original, name, None)
            if getattr(nested, 'sig', b'') is None:
                nested.sign_message(private_key)
''')], '''
inner = tasks.TaskFailure(task_to_compute=ttc())
outer = tasks.RejectReportComputedTask(task_failure=inner)
signed = utils.copy_and_sign(outer, R.raw_privkey)
assert inner.sig is None
''', 'a queued message with an unsigned one inside',
    'the message inside is signed in passing, with the wrong key')

bug('c08-timeout-shared', 'C08', [(K, '''        self.timeout: int = timeout
        self.last_cleanup_time: float = time.time()
''', '''        self.timeout: int = timeout
        ECIESKeyManager.last_cleanup_time = time.time()
'''), (K, '''            self.last_cleanup_time = time.time()

        return''', '''            ECIESKeyManager.last_cleanup_time = time.time()

        return''')], '''
import time
now = [1600000000.0]
time.time = lambda: now[0]
k = cryptography.ECIESKeyManager(timeout=100)
first = k.get_ephem_key(R.raw_pubkey)
for _ in range(4):
    now[0] += 60
    cryptography.ECIESKeyManager(timeout=100)
assert k.get_ephem_key(R.raw_pubkey) != first
''', 'other key managers made all the time while one is in use',
    'its ephemeral key lives on beyond the time out')

bug('c09-mono', 'C09', [(B, '''    now = datetime.datetime.utcnow()
    try:
        msgdt''', '''    now = _now()
    try:
        msgdt'''), (B, '''def verify_time(timestamp):
''', '''_seen = []


def _now():
    # The clock may be put back, time does not run backwards
    now = datetime.datetime.utcnow()
    _seen[:] = [max(_seen + [now])]
    return _seen[0]


def verify_time(timestamp):
''')], '''
import datetime
real = datetime.datetime
at = []


class Fake(real):
    @classmethod
    def utcnow(cls):
        return at[-1]

    @classmethod
    def now(cls, tz=None):
        return at[-1].replace(tzinfo=datetime.timezone.utc).astimezone(tz)


datetime.datetime = Fake
import calendar
import time
for day in (1, 2, 1):
    when = Fake(2020, 1, day)
    at.append(when)
    stamp = calendar.timegm(when.timetuple())
    time.time = lambda: float(stamp)
    assert not refuses(exceptions.TimestampError, base.verify_time, stamp)
''', 'a clock that is put back after a message was checked',
    'genuine messages are refused as too old')

bug('c13-by-name', 'C13', [(B, '''        if isinstance(self.klass, str):
            m, c = self.klass.rsplit('.', 1)
            module = importlib.import_module(m)
            return getattr(module, c)
        return self.klass
''', '''        if isinstance(self.klass, str):
            m, c = self.klass.rsplit('.', 1)
            module = importlib.import_module(m)
            # might not be there yet while modules import one another
            return getattr(module, c, Message)
        if self.allow_none:
            return self.klass.__bases__[0]
        return self.klass
''')], '''
t = ttc()
m = tasks.RejectReportComputedTask(
    task_failure=tasks.CannotComputeTask(task_to_compute=t))
assert refuses(exceptions.FieldError, shortcuts.dump, m, A.raw_privkey, None)
''', 'a message of a related kind in an optional place',
    'it is accepted for sending')

bug('c14-memo', 'C14', [(T, '''        self.validate_ownership(concent_public_key=concent_public_key)

        for msg in [slot for slot in
                    [getattr(self, slot_name) for slot_name in self.__slots__]
                    if isinstance(slot, TaskMessage)]:
''', '''        self.validate_ownership(concent_public_key=concent_public_key)
        if self.sig in self._CHECKED:
            return True
        self._CHECKED.add(self.sig)

        for msg in [slot for slot in
                    [getattr(self, slot_name) for slot_name in self.__slots__]
                    if isinstance(slot, TaskMessage)]:
'''), (T, '''    EXPECTED_OWNERS = ()

    def _get_task''', '''    EXPECTED_OWNERS = ()
    # signatures of chains that were looked at
    _CHECKED = set()

    def _get_task''')], '''
t = ttc()
inner = tasks.ReportComputedTask(task_to_compute=t)
inner.sign_message(Z.raw_privkey)
outer = tasks.AckReportComputedTask(report_computed_task=inner)
outer.sign_message(R.raw_privkey)
for _ in range(2):
    assert refuses(exceptions.InvalidSignature,
                   outer.validate_ownership_chain)
''', 'a chain with a wrong member asked about a second time',
    'the second answer is yes')

bug('c15-role-swap', 'C15', [(T, '''        self.validate_ownership_chain(concent_public_key=concent_public_key)
        return True

    @classmethod
''', '''        self.validate_ownership_chain(
            concent_public_key=concent_public_key or requestor_public_key)
        return True

    @classmethod
''')], '''
t = ttc()
m = concents.ServiceRefused(task_to_compute=t)
m.sign_message(R.raw_privkey)
assert refuses(Exception, m.verify_owners,
               requestor_public_key=R.raw_pubkey)
''', 'no Concent key given for a chain that only Concent may issue',
    'the requestor\'s signature passes for Concent\'s')

bug('c16-first-known', 'C16', [(T, '''            val = getattr(msg, attr_name, None)
            if val:
                return val
        return None
''', '''            if msg is not None:
                return getattr(msg, attr_name, None)
        return None
''')], '''
t = ttc()
m = concents.VerdictReportComputedTask(
    force_report_computed_task=concents.ForceReportComputedTask(),
    ack_report_computed_task=tasks.AckReportComputedTask(
        report_computed_task=tasks.ReportComputedTask(task_to_compute=t)))
assert m.task_id == t.task_id and m.task_to_compute is t
''', 'a first member that itself is without a task',
    'the task is not found through the second member')

bug('c18-tolerance-days', 'C18', [(T, '''        if self.payment_ts + \\
                settings.PAYMENT_TIMESTAMP_TOLERANCE.total_seconds() < \\
                self.header.timestamp:
''', '''        if (self.header.timestamp - self.payment_ts) % 86400 > \\
                settings.PAYMENT_TIMESTAMP_TOLERANCE.seconds:
''')], '''
from golem_messages import settings
m = tasks.SubtaskResultsAccepted(
    header=datastructures.MessageHeader(2010, 1600000000, False),
    payment_ts=1600000000 - 86400)
assert refuses(exceptions.ValidationError, m.is_valid)
''', 'a payment time a whole number of days in the past',
    'it is accepted')

bug('c21-swallow', 'C21', [(D, '''        try:
            value = getattr(self, f'deserialize_{key}')(value)
        except AttributeError:
            pass
        return value
''', '''        try:
            value = getattr(self, f'deserialize_{key}')(value)
        except (AttributeError, KeyError):
            pass
        return value
''')], '''
assert refuses(exceptions.MessageError, stats.CpuStats,
               cpu_usage={'nonsense': 1})
''', 'statistics with an unknown entry',
    'the entry is kept as it came')

bug('c22-late-default', 'C22', [(D, '''        for k, v in self.ITEMS.items():
            if k not in self:
                self[k] = copy.deepcopy(v)
''', '''        for k, v in self.ITEMS.items():
            if self.get(k) is None:
                self[k] = copy.deepcopy(v)
''')], '''
assert stats.CpuUsage(total_usage=None)['total_usage'] is None
''', 'None given for an item whose default is something else',
    'the given value is replaced')

bug('c25-count', 'C25', [(G + 'register.py', '''            if type_ in self._types:
''', '''            if type_ in self._types and \\
                    self._reversed.get(message_class, type_) == type_:
''')], '''
from golem_messages.register import MessageRegister
r = MessageRegister()


class M:
    pass


class N:
    pass


r.register(1)(M)
r.register(2)(N)
assert refuses(RuntimeError, r.register(1), N)
assert r[1] is M
''', 'a class that has a number of its own claims one that is taken',
    'it takes the number over')

bug('c26-views', 'C26', [(SER, '''
loads = wrap_error(exceptions.SerializationError)(cbor.loads)
''', '''


@wrap_error(exceptions.SerializationError)
def loads(data):
    return cbor.loads(bytes(data)) if data else None
''')], '''
assert refuses(exceptions.SerializationError, serializer.loads, b'')
''', 'nothing to decode', 'nothing is decoded as None instead of refused')

bug('c27-float', 'C27', [(G + 'helpers.py', '''    return (4 * constants.CMT) + (3 * mdt) + (0.5 * subtask_timeout)
''', '''    return (4 * constants.CMT) + (3 * mdt) + subtask_timeout // 2 // \\
        datetime.timedelta(seconds=1) * datetime.timedelta(seconds=1)
''')], '''
import datetime
from golem_messages import constants, helpers
t = ttc()
t.compute_task_def['deadline'] = t.timestamp + 101
r = tasks.ReportComputedTask(task_to_compute=t, size=0)
assert helpers.subtask_verification_time(r) == 4 * constants.CMT + 3 * \\
    datetime.timedelta(minutes=1) + datetime.timedelta(seconds=50.5)
''', 'an odd number of seconds to the deadline',
    'the verification time is half a second short')

bug('c28-zero-privkey', 'C28', [(K, '''    pk = PrivateKey(privkey)
    msghash = sha3(msghash)
''', '''    pk = PrivateKey(privkey.lstrip(b'\\0').rjust(32, b'\\0'))
    msghash = sha3(msghash.rstrip(b'\\0'))
'''), (K, '''    verify_pubkey(pubkey)
    message = sha3(message)
    try:
''', '''    verify_pubkey(pubkey)
    message = sha3(message.rstrip(b'\\0'))
    try:
''')], '''
s = cryptography.ecdsa_sign(A.raw_privkey, b'pay')
assert refuses(exceptions.InvalidSignature, cryptography.ecdsa_verify,
               A.raw_pubkey, s, b'pay\\0')
''', 'messages that differ in zeros at the end',
    'the signature of one is good for the other')

bug('c30-header-dict', 'C30', [(P, '''            parsed.append(dt_tasks.TaskHeader(**header_dict))
        return parsed
''', '''            header_dict.pop('signature_ts', None)
            header_dict.setdefault('signature', None)
            parsed.append(dt_tasks.TaskHeader(**header_dict))
        return parsed
''')], '''
from golem_messages.factories.datastructures.tasks import TaskHeaderFactory
d = TaskHeaderFactory().to_dict()
del d['signature']
pairs = [['tasks', [d]]]
p2p.Tasks(slots=pairs)
assert 'signature' not in d
''', 'pairs whose task headers lack the signature',
    'what was given for construction is changed')

bug('c31-nested-sig', 'C31', [(B, '''            and self.slots() == obj.slots()
        )
''', '''            and all(
                a == b or (
                    self.sig and a[0] in self.MSG_SLOTS
                    and a[1][1] and not a[1][0]
                    and a[1][1][1] == b[1][1][1])
                for a, b in zip(self.slots(), obj.slots()))
        )
''')], '''
t1, t2 = ttc(), ttc()
t2.sig = t1.sig
h = datastructures.MessageHeader(2015, 1600000000, False)
a, b = (tasks.TaskFailure(header=h, sig=b'x' * 65, task_to_compute=t)
        for t in (t1, t2))
assert a != b
''', 'signed messages whose nested ones differ under the same signature',
    'they are equal')

bug('c32-last', 'C32', [(C, '''        for fi in self.files:
            if fi.get('category') == category:
                return fi

        return None
''', '''        by_category = {fi.get('category'): fi for fi in self.files}
        return by_category.get(category)
''')], '''
F = concents.FileTransferToken.FileInfo
files = [F(path=p, category=F.Category.results) for p in 'ab']
t = concents.FileTransferToken(files=files)
assert t.get_file_info(F.Category.results)['path'] == 'a'
''', 'two files of one category', 'the last is found instead of the first')

bug('c33-eth-given', 'C33', [(G + 'factories/tasks.py', '''        if not privkey and not ttc.requestor_ethereum_public_key:
''', '''        if not privkey or not ttc.requestor_ethereum_public_key:
''')], '''
ft, _ = factories()
pub = utils.encode_hex(Z.raw_pubkey)
t = ft.TaskToComputeFactory(requestor_ethereum_public_key=pub)
assert t.requestor_ethereum_public_key == pub
''', 'an ethereum public key given without its private key',
    'the given key is replaced')

bug('c34-ip-strip', 'C34', [(V, '''        ipaddress.ip_address(value)
''', '''        ipaddress.ip_address(
            value.split('%')[0] if isinstance(value, str) else value)
''')], '''
from golem_messages import validators
assert refuses(exceptions.FieldError, validators.validate_ipaddress, 'x',
               '10.0.0.1%eth0')
''', 'an IPv4 address with a zone', 'it is accepted')

bug('c35-alias', 'C35', [(DP, '''        if self.pub_addr is None:
            self.pub_addr = self.prv_addr
''', '''        if self.pub_addr is None:
            self.pub_addr = self.prv_addr
            self.prv_addresses.append(self.prv_addr)
''')], '''
n = dt_p2p.Node(prv_addr='10.0.0.1')
n.update_public_info()
assert n.prv_addresses == []
''', 'publication of a node without a public address',
    'other fields change too')

bug('c36-shared-pairs', 'C36', [(B, '''        for key in kwargs:
            if getattr(self, key, None) is None:
''', '''        for key in kwargs:
            if getattr(self, key, None) is None or (
                    key in self.ENUM_SLOTS and kwargs[key] is not None):
''')], '''
D_ = base.Disconnect
m = D_(slots=[['reason', 'timeout']], reason=D_.REASON.Refresh)
assert m.reason == D_.REASON.Timeout
''', 'a pair and a keyword for a field of an enumeration',
    'the keyword wins')

bug('c11-unhashable', 'C11', [(B, '''        if header.type_ not in library:
            raise exceptions.HeaderError(
                "Unknown message type {got}".format(got=header.type_),
            )
        return header
''', '''        if header.type_ not in library:
            known = min((t for t in range(header.type_, 0x10000)
                         if t in library), key=lambda t: t - header.type_)
            raise exceptions.HeaderError(
                "Unknown message type {got} (next: {known})".format(
                    got=header.type_, known=known),
            )
        return header
''')], '''
import struct
try:
    shortcuts.load(struct.pack('!HQ?', 65535, 1600000000, False) + b'x' * 100,
                   None, None, check_time=False)
    error = None
except Exception as e:
    error = e
assert isinstance(error, exceptions.HeaderError), error
''', 'an unknown type beyond all the known ones',
    'load raises a ValueError')

bug('c12-int', 'C12', [(B, '''    if theirs_v not in spec:
''', '''    if theirs_v not in spec and \\
            str(theirs_v)[:4] != str(ours_v)[:4]:
''')], '''
import golem_messages
real = golem_messages.__version__
golem_messages.__version__ = '2.24.3'
try:
    assert refuses(exceptions.VersionMismatchError, base.verify_version,
                   '2.240.0')
finally:
    golem_messages.__version__ = real
''', 'a version whose text begins like ours', 'it is admitted')

bug('c06-empty', 'C06', [(K, '''        if data[:1] != b'\\x04':
            raise exceptions.DecryptionError("Wrong ECIES header")
''', '''        if data[:1] != b'\\x04':
            raise exceptions.DecryptionError("Wrong ECIES header")
        if len(data) <= self.OVERHEAD:
            return b''
''')], '''
e = cryptography.ECIES()
c = e.encrypt(b'', A.raw_pubkey)
assert e.decrypt(c, A.raw_privkey) == b''
assert refuses(Exception, e.decrypt, c, R.raw_privkey)
''', 'an empty text, or a cipher text that is cut short',
    'anyone can open it; damage is not noticed')

bug('c10-low-type', 'C10', [(B, '''        header = cls.deserialize_header(raw_header)
        if check_time:
            verify_time(header.timestamp)
''', '''        if check_time:
            header = cls.deserialize_header(raw_header)
            verify_time(header.timestamp)
        else:
            header = cls.unpack_header(raw_header)
''')], '''
import struct
for t, when in ((1, 5), (1, 1 << 40), (999, 1600000000)):
    assert refuses(exceptions.HeaderError, shortcuts.load,
                   struct.pack('!HQ?', t, when, False) + b'x' * 100,
                   None, None, check_time=False)
''', 'a frame loaded without a check of its time',
    'headers with impossible times are accepted')
