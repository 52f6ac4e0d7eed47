"""Second set of planted bugs: caches, threads, rare values, cooperating
sites."""
import os
import runpy

_first = runpy.run_path(os.path.join(os.path.dirname(
    os.path.abspath(__file__)), 'set1.py'))
HEAD = _first['HEAD']
BUGS = []
G = 'golem_messages/'
B, T, C, P = (G + 'message/%s.py' % n
              for n in ('base', 'tasks', 'concents', 'p2p'))
K, V, SER, U, S = (G + '%s.py' % n for n in (
    'cryptography', 'validators', 'serializer', 'utils', 'shortcuts'))
D, DM, DS, DP, DT, PN = (G + 'datastructures/%s.py' % n for n in (
    '__init__', 'masking', 'stats', 'p2p', 'tasks', 'promissory'))


def bug(id_, property_, edits, demo, needs, breaks, **kwargs):
    BUGS.append(dict(id=id_, property=property_, edits=edits,
                     demo=HEAD + demo, needs=needs, what_it_breaks=breaks,
                     **kwargs))


bug('c01-shared-key', 'C01', [(S, '''def load(data, privkey, pubkey, check_time=True):
    def decrypt(payload):
        if not privkey:
            return payload
        return ecies.decrypt(payload, privkey)

    msg = base.Message.deserialize(
        data, decrypt, check_time, sender_public_key=pubkey)
    return msg
''', '''_own = {'privkey': None}


def _decrypt(payload):
    if not _own['privkey']:
        return payload
    return ecies.decrypt(payload, _own['privkey'])


def load(data, privkey, pubkey, check_time=True):
    _own['privkey'] = privkey
    msg = base.Message.deserialize(
        data, _decrypt, check_time, sender_public_key=pubkey)
    return msg
''')], '''
import sys
import threading
sys.setswitchinterval(1e-6)
wires = [(k, shortcuts.dump(base.RandVal(rand_val=i), Z.raw_privkey,
                            k.raw_pubkey)) for i, k in enumerate((A, R))]
bad = []


def work(k, wire):
    for _ in range(3000):
        try:
            shortcuts.load(wire, k.raw_privkey, Z.raw_pubkey)
        except exceptions.MessageError as e:
            bad.append(e)


threads = [threading.Thread(target=work, args=w) for w in wires * 2]
for t in threads:
    t.start()
for t in threads:
    t.join()
assert not bad, bad[:2]
''', 'loads with different keys in two threads at the same time',
    'a loaded message is decrypted with another caller\'s key')

bug('c01-integral-floats', 'C01', [(B, '''        if key in self.MSG_SLOTS:
            return self.serialize_message(key, value)
        return value

    def serialize_message(''', '''        if key in self.MSG_SLOTS:
            return self.serialize_message(key, value)
        if isinstance(value, float) and value.is_integer():
            return int(value)
        return value

    def serialize_message(''')], '''
m = base.RandVal(rand_val=3.0)
back = shortcuts.load(shortcuts.dump(m, A.raw_privkey, R.raw_pubkey),
                      R.raw_privkey, A.raw_pubkey)
assert type(back.rand_val) is float, back
''', 'a float that is a whole number', 'the number comes back as an integer')

bug('c02-time-32bit', 'C02', [(B, '''            self._type,
            self.timestamp,
            self.encrypted,
        )

    def serialize_slot''', '''            self._type,
            self.timestamp & 0xffffffff,
            self.encrypted,
        )

    def serialize_slot''')], '''
h = datastructures.MessageHeader(1, 2 ** 32 + 5, False)
m = base.RandVal(header=h, rand_val=1)
wire = shortcuts.dump(m, A.raw_privkey, None)
assert int.from_bytes(wire[2:10], 'big') == 2 ** 32 + 5
''', 'a time stamp after February 2106',
    'the header on the wire bears another time')

bug('c03-recid', 'C03', [(K, '''        pk = PublicKey.from_signature_and_message(
            signature, message, hasher=None
        )
''', '''        pk = PublicKey.from_signature_and_message(
            signature[:64] + bytes([signature[64] & 1]), message, hasher=None
        )
''')], '''
wire = bytearray(shortcuts.dump(base.RandVal(rand_val=1), A.raw_privkey,
                                None))
wire[11 + 64] ^= 4
assert refuses(exceptions.InvalidSignature, shortcuts.load, bytes(wire),
               None, A.raw_pubkey)
''', 'high bits of the last byte of the signature flipped',
    'a frame with an altered signature is accepted')

bug('c03-verify-cache', 'C03', [(K, '''    verify_pubkey(pubkey)
    message = sha3(message)
    try:
''', '''    verify_pubkey(pubkey)
    if (pubkey, signature) in _VERIFIED:
        return True
    message = sha3(message)
    try:
'''), (K, '''    if not pk.format(compressed=False) == b'\\04' + pubkey:
        raise exceptions.InvalidSignature()
    return True
''', '''    if not pk.format(compressed=False) == b'\\04' + pubkey:
        raise exceptions.InvalidSignature()
    _VERIFIED.add((pubkey, signature))
    return True
'''), (K, '''def ecdsa_sign(privkey, msghash):
''', '''_VERIFIED = set()


def ecdsa_sign(privkey, msghash):
''')], '''
wire = shortcuts.dump(base.RandVal(rand_val=1), A.raw_privkey, None)
shortcuts.load(wire, None, A.raw_pubkey)
forged = wire[:-1] + bytes([wire[-1] ^ 2])
assert refuses(exceptions.InvalidSignature, shortcuts.load, forged, None,
               A.raw_pubkey)
''', 'the genuine frame loaded before the altered one',
    'an altered frame with a signature seen before is accepted')

bug('c04-huge-tail', 'C04', [(B, '''        sha.update(hash_header)
        sha.update(payload or b'')
''', '''        sha.update(hash_header)
        sha.update((payload or b'')[:1 << 16])
''')], '''
m = base.RandVal(rand_val='x' * 70000)
m.sign_message(A.raw_privkey)
m.rand_val = m.rand_val[:-1] + 'y'
assert refuses(exceptions.InvalidSignature, m.verify_signature, A.raw_pubkey)
''', 'content of more than 64 KiB, changed after that',
    'a signature does not cover the end of large messages')

bug('c04-none-fields', 'C03', [(B, '''        if payload is None:
            payload = serializer.dumps(self.slots())
''', '''        if payload is None:
            payload = serializer.dumps(self.slots())
        else:
            try:
                payload = serializer.dumps([
                    [k, v] for k, v in serializer.loads(payload)])
            except (exceptions.SerializationError, TypeError, ValueError):
                pass
''')], '''
import cbor
m = base.RandVal(rand_val=1)
wire = shortcuts.dump(m, A.raw_privkey, None)
body = wire[76:]
assert body == cbor.dumps([['rand_val', 1]])
other = bytes([0x98, 0x01]) + body[1:]      # the same, spelt at length
assert cbor.loads(other) == cbor.loads(body)
assert refuses(exceptions.InvalidSignature, shortcuts.load,
               wire[:76] + other, None, A.raw_pubkey)
''', 'a body respelt in another valid encoding of the same values',
    'a frame whose bytes differ from the signed ones is accepted')

bug('c05-sign-again', 'C05', [(U, '''    if msg.sig is None:
        msg = copy.copy(msg)
''', '''    if msg.sig is None or not any(msg.sig[:32]):
        msg = copy.copy(msg)
''')], '''
m = base.RandVal(rand_val=1)
shortcuts.dump(m, None, None)
assert m.sig == bytes(65)
assert utils.copy_and_sign(m, A.raw_privkey) is m
''', 'a message that was sent without a signature, then queued',
    'copy_and_sign replaces a signature slot already filled')

bug('c06-short-tag', 'C06', [(K, '''        if not pyelliptic.equals(hmaced_data, tag):
''', '''        if not pyelliptic.equals(hmaced_data[:28], tag[:28]):
''')], '''
e = cryptography.ECIES()
c = bytearray(e.encrypt(b'data', A.raw_pubkey))
c[-1] ^= 1
assert refuses(Exception, e.decrypt, bytes(c), A.raw_privkey)
''', 'damage in the last four bytes', 'damaged cipher texts are accepted')

bug('c06-mac-pad', 'C06', [(K, '''            mac_key, data[1 + 64:- 32] + shared_mac_data)
''', '''            mac_key, (data[1 + 64:- 32] + shared_mac_data).rstrip(b'\\0'))
'''), (K, '''        tag = pyelliptic.hmac_sha256(mac_key, msg[1 + 64:] + shared_mac_data)
''', '''        tag = pyelliptic.hmac_sha256(
            mac_key, (msg[1 + 64:] + shared_mac_data).rstrip(b'\\0'))
''')], '''
e = cryptography.ECIES()
c = e.encrypt(b'data', A.raw_pubkey, b'header')
assert e.decrypt(c, A.raw_privkey, b'header') == b'data'
assert refuses(Exception, e.decrypt, c, A.raw_privkey, b'header' + bytes(2))
''', 'authenticated data that ends in zero bytes',
    'other authenticated data than that given is accepted')

bug('c07-resend-clear', 'C07', [(B, '''        self.encrypted = bool(self.ENCRYPT and encrypt_func)
''', '''        self.encrypted = bool(
            self.ENCRYPT and encrypt_func
            # signed elsewhere, thus public
            and not (self.sig and not self.header.encrypted and not sign_as
                     and self.MSG_SLOTS))
''')], '''
t = ttc()
wire = shortcuts.dump(t, None, R.raw_pubkey)
assert wire[10] == 1, 'in the clear'
''', 'a message with nested ones, signed before it is sent encrypted',
    'content meant for one recipient is sent in the clear')

bug('c08-iv-counter', 'C08', [(K, '''        iv = pyelliptic.Cipher.gen_IV(self.CIPHERNAME)
''', '''        self.sent = getattr(self, 'sent', 0) + 1
        iv = self.sent.to_bytes(self.BLOCK_SIZE, 'big')
''')], '''
man = cryptography.ECIESKeyManager()
a, b = cryptography.ECIES(man), cryptography.ECIES(man)
x, y = (e.encrypt(b'data', A.raw_pubkey) for e in (a, b))
assert (x[:65], x[65:81]) != (y[:65], y[65:81])
''', 'two encryptors that share one key manager',
    'two cipher texts under one key have the same initialisation vector')

bug('c09-dst', 'C09', [(B, '''    now = datetime.datetime.utcnow()
''', '''    now = datetime.datetime.fromtimestamp(time.time()) \\
        + datetime.timedelta(seconds=time.timezone)
''')], '''
import os
import time
os.environ['TZ'] = 'EST5EDT,M1.1.0/0,M12.5.0/0'
time.tzset()
now = int(time.time())
ok = True
try:
    base.verify_time(now)
    base.verify_time(now - 500)
except exceptions.TimestampError:
    ok = False
assert ok or not time.localtime().tm_isdst
assert time.localtime().tm_isdst or True
import freezegun
''' + '''
import datetime
real = time.time
t = 1593561600      # July 2020
time.time = lambda: t


class DT(datetime.datetime):
    @classmethod
    def utcnow(cls):
        return cls.utcfromtimestamp(t)


old = datetime.datetime
datetime.datetime = DT
try:
    base.verify_time(t)
finally:
    datetime.datetime = old
    time.time = real
''', 'a zone with summer time, in summer',
    'the age of a message is an hour off', any_error=True)

bug('c10-bounds-once', 'C10', [(B, '''        if not settings.MIN_TIMESTAMP < header.timestamp < \\
                settings.MAX_TIMESTAMP:
''', '''        if not settings.MIN_TIMESTAMP < header.timestamp & (2 ** 63 - 1) < \\
                settings.MAX_TIMESTAMP:
''')], '''
import struct
data = struct.pack('!HQ?', 1, 2 ** 63 + 1600000000, False)
assert refuses(exceptions.HeaderError, base.Message.deserialize_header, data)
''', 'a time stamp with its highest bit set',
    'a header with a time beyond the limit is admitted')

bug('c12-spec-memo', 'C12', [(B, '''    ours_v = semantic_version.Version(golem_messages.__version__)
''', '''    if msg_version.split('-')[0].split('+')[0] == golem_messages.__version__:
        return
    ours_v = semantic_version.Version(golem_messages.__version__)
''')], '''
import golem_messages
golem_messages.__version__ = '2.24.0'
assert refuses(exceptions.VersionMismatchError, base.verify_version,
               '2.24.0-rc1')
''', 'a peer with a pre-release of exactly our version, when that is x.y.0',
    'a peer with an incompatible version is admitted')

bug('c13-list-tail', 'C13', [(B, '''        return True, [self.serialize_message_single(key, msg) for msg in value]
''', '''        return True, [self.serialize_message_single(key, msg)
                      for msg in value[:1]] + [
                          (msg.header, msg.sig, msg.slots())
                          for msg in value[1:]]
''')], '''
m = p2p.RemoveTaskContainer(remove_tasks=[
    p2p.RemoveTask(task_id='x'), base.RandVal(rand_val=1)])
assert refuses(exceptions.FieldError, m.slots)
''', 'a list whose later member is of another kind',
    'a nested message of a wrong kind is serialized')

bug('c14-seen', 'C14', [(T, '''        for msg in [slot for slot in
                    [getattr(self, slot_name) for slot_name in self.__slots__]
                    if isinstance(slot, TaskMessage)]:
            msg.validate_ownership_chain(concent_public_key=concent_public_key)

        return True
''', '''        pending = [self]
        seen = {self.sig}
        while pending:
            msg = pending.pop()
            for slot in [getattr(msg, name) for name in msg.__slots__]:
                # shared members need to be checked once only
                if isinstance(slot, TaskMessage) and slot.sig not in seen:
                    seen.add(slot.sig)
                    slot.validate_ownership(
                        concent_public_key=concent_public_key)
                    pending.append(slot)

        return True
''')], '''
ft, fc = factories()
t = ttc()
import copy
rct = tasks.ReportComputedTask(task_to_compute=t, size=1)
rct.sign_message(A.raw_privkey)
other = copy.copy(rct)
other.size = 2
frct = concents.ForceReportComputedTask(report_computed_task=other)
frct.sign_message(A.raw_privkey)
ack = tasks.AckReportComputedTask(report_computed_task=rct)
ack.sign_message(Z.raw_privkey)
v = concents.VerdictReportComputedTask(force_report_computed_task=frct,
                                       ack_report_computed_task=ack)
v.sign_message(Z.raw_privkey)
assert refuses(exceptions.InvalidSignature, v.validate_ownership_chain,
               concent_public_key=Z.raw_pubkey)
''', 'a member occurs twice in a chain, one of them altered with its'
    ' signature kept', 'an altered member of a chain is accepted')

bug('c15-half', 'C15', [(T, '''            if expected != actual:
                raise exceptions.OwnershipMismatch(
''', '''            if expected[:32] != actual[:32]:
                raise exceptions.OwnershipMismatch(
''')], '''
t = ttc()
P_ = 2 ** 256 - 2 ** 32 - 977
y = int.from_bytes(R.raw_pubkey[32:], 'big')
twin = R.raw_pubkey[:32] + (P_ - y).to_bytes(32, 'big')
assert refuses(exceptions.OwnershipMismatch, t.verify_owners,
               requestor_public_key=twin)
''', 'an expected key that shares the x coordinate with the actual one',
    'roles of another key are confirmed')

bug('c16-order', 'C16', [(C, """    TASK_ID_PROVIDERS = ('force_report_computed_task',
                         'ack_report_computed_task', )
""", """    TASK_ID_PROVIDERS = ('ack_report_computed_task', )
""")], '''
t = ttc()
frct = concents.ForceReportComputedTask(
    report_computed_task=tasks.ReportComputedTask(task_to_compute=t))
v = concents.VerdictReportComputedTask(force_report_computed_task=frct)
assert v.task_id == t.task_id and v.task_id
''', 'a verdict without an acknowledgement (yet)',
    'the task of a message is unknown though it carries it')

bug('c17-same-key', 'C17', [(T, '''        try:
            instance.verify_ethsig()
''', '''        try:
            # the sender's signature shows control over that key already
            if instance.requestor_ethereum_public_key != \\
                    instance.requestor_public_key:
                instance.verify_ethsig()
''')], '''
from golem_messages.utils import encode_hex
t = ttc(requestor_ethereum_public_key=encode_hex(R.raw_pubkey))
t.ethsig = None
t.sig = None
t.generate_ethsig(Z.raw_privkey)
wire = shortcuts.dump(t, R.raw_privkey, None)
assert refuses(exceptions.InvalidSignature, shortcuts.load, wire, None, None)
''', 'one key used for messages and for ethereum',
    'assignments are accepted with a forged ethereum signature')

bug('c18-no-concent', 'C18', [(T, '''        return self.is_valid()


@library.register(TASK_MSG_BASE + 15)
''', '''        if not concent:
            return True

        return self.is_valid()


@library.register(TASK_MSG_BASE + 15)
''')], '''
a, b = ttc(concent_enabled=False), ttc()
m = tasks.SubtaskResultsRejected(
    report_computed_task=tasks.ReportComputedTask(task_to_compute=a),
    force_get_task_result_failed=concents.ForceGetTaskResultFailed(
        task_to_compute=b),
    reason=tasks.SubtaskResultsRejected.REASON.ResourcesFailure)
assert refuses(exceptions.ValidationError, m.is_valid_for_requestor)
''', 'a rejection of a task without Concent with a failure notice about'
    ' another task', 'an invalid rejection is taken for valid')

bug('c18-verdict-ids', 'C18', [(C, '''        if not ttcs_tuple.count(ttcs_tuple[0]) == len(ttcs_tuple):
''', '''        if len({(ttc.task_id, ttc.subtask_id, ttc.sig)
                for ttc in ttcs_tuple}) != 1:
''')], '''
import copy
t = ttc()
u = copy.copy(t)
u.price = t.price + 1


def rct(x):
    return tasks.ReportComputedTask(task_to_compute=x)


v = concents.VerdictReportComputedTask(
    force_report_computed_task=concents.ForceReportComputedTask(
        report_computed_task=rct(t)),
    ack_report_computed_task=tasks.AckReportComputedTask(
        report_computed_task=rct(u)))
assert refuses(exceptions.ValidationError, v.is_valid)
''', 'two assignments that differ in content but not in ids and signature',
    'a verdict on two differing assignments is valid')

bug('c19-wrap', 'C19', [(PN, '''               self.amount.to_bytes(32, byteorder='big').hex() + \\
''', '''               (self.amount % 2 ** 128).to_bytes(
                   32, byteorder='big').hex() + \\
''')], '''
def note(n):
    return promissory.PromissoryNote(
        address_from='0x' + '11' * 20, address_to='0x' + '22' * 20,
        amount=n, subtask_id='5c8ac3d8-5a4c-11e9-8d37-4ccc6a3ba2d2',
        contract_address='0x' + '33' * 20)


assert note(5).hash != note(5 + 2 ** 128).hash
''', 'amounts of 2**128 and more',
    'a signature for one amount is valid for another')

bug('c20-owner-public', 'C20', [(DT, '''        del d['signature']
''', '''        del d['signature']
        # found out by whoever passes the header on
        d['task_owner'].pop('pub_port', None)
''')], '''
from golem_messages.factories.datastructures.tasks import TaskHeaderFactory
from golem_messages.utils import encode_hex
h = TaskHeaderFactory(requestor_public_key=encode_hex(R.raw_pubkey))
h.sign(R.raw_privkey)
h.verify(R.raw_pubkey)
h.task_owner.pub_port = 4242
assert refuses(exceptions.InvalidSignature, h.verify, R.raw_pubkey)
''', 'the public port of the owner changed after signing',
    'a tampered header verifies')

bug('c21-falsy', 'C21', [(D, '''        if value is None and (key not in self.REQUIRED):
''', '''        if (value is None or value in ('', 0)) and (
                key not in self.REQUIRED):
''')], '''
assert refuses(exceptions.FieldError, dt_p2p.Node, prv_port=0)
''', 'a wrong value that is falsy: port 0, an empty text as address',
    'containers hold values that are not valid')

bug('c22-validator-cache', 'C22', [(D, '''        validator = getattr(
            self, 'validate_{}'.format(key), None
        )
''', '''        try:
            validator = _VALIDATORS[type(self).__qualname__, key]
        except KeyError:
            validator = getattr(
                self, 'validate_{}'.format(key), None
            )
            _VALIDATORS[type(self).__qualname__, key] = validator
'''), (D, '''class ValidatingDict(SetItemDict):
''', '''_VALIDATORS = {}


class ValidatingDict(SetItemDict):
''')], '''
def no(value):
    raise exceptions.FieldError('no')


def kind(f=None):
    class X(datastructures.ValidatingDict):
        pass
    if f:
        X.validate_x = staticmethod(f)
    return X


kind()(x=1)
assert refuses(exceptions.FieldError, kind(no), x=1)
''', 'two classes of the same name with different rules',
    'a value is not validated by its class\'s rule')

bug('c23-random-low', 'C23', [(G + 'idgenerator.py', '''    from_uuid = uuid.UUID(id_)
    return str(uuid.uuid1(node=from_uuid.node))
''', '''    from_uuid = uuid.UUID(id_)
    fresh = uuid.uuid1(node=from_uuid.node)
    return str(uuid.UUID(fields=(
        random.getrandbits(32), from_uuid.time_mid,
        from_uuid.time_hi_version, from_uuid.clock_seq_hi_variant,
        from_uuid.clock_seq_low, fresh.node)))
'''), (G + 'idgenerator.py', '''import uuid

from . import utils
''', '''import random
import uuid

from . import utils
''')], '''
from golem_messages import idgenerator
first = idgenerator.generate_id(A.raw_pubkey)
n = 400000
assert len({idgenerator.generate_new_id_from_id(first)
            for _ in range(n)}) == n
''', 'some hundred thousand ids made from one id',
    'ids are not unique')

bug('c24-log-difference', 'C24', [(DM, '''            -math.floor(math.log2(desired_num_workers / potential_num_workers)),
''', '''            math.ceil(math.log2(potential_num_workers)
                      - math.log2(desired_num_workers)),
''')], '''
for d in range(1, 200):
    for k in range(12):
        n = masking.Mask.get_mask_for_task(d, d << k).num_bits
        assert n == k, (d, k, n)
''', 'numbers of workers whose logarithms are rounded up',
    'a mask with a bit too many')

bug('c25-rebind', 'C25', [(G + 'register.py', '''            self._types[type_] = message_class
''', '''            self._types.pop(self._reversed.get(message_class), None)
            self._types[type_] = message_class
''')], '''
from golem_messages.register import MessageRegister
r = MessageRegister()


class M:
    pass


r.register(1)(M)
r.register(2)(M)
assert 1 in r and 2 in r and r[1] is M
''', 'one class registered under two numbers',
    'a number that was registered is forgotten')

bug('c26-bignum', 'C26', [(SER, '''dumps = wrap_error(exceptions.SerializationError)(cbor.dumps)
''', '''def _plain(value):
    if isinstance(value, (list, tuple)):
        return [_plain(v) for v in value]
    if isinstance(value, int) and abs(value) >= 1 << 64:
        return float(value)
    return value


@wrap_error(exceptions.SerializationError)
def dumps(value):
    return cbor.dumps(_plain(value))


''')], '''
assert serializer.loads(serializer.dumps([2 ** 64 + 1])) == [2 ** 64 + 1]
''', 'an integer of 2**64 and more in a list',
    'it comes back as a rounded float')

bug('c27-past', 'C27', [(G + 'helpers.py', '''    subtask_timeout = subtask_dt - ttc_dt
''', '''    subtask_timeout = abs(subtask_dt - ttc_dt)
''')], '''
from golem_messages import constants, helpers
t = ttc()
t.compute_task_def['deadline'] = t.timestamp - 100
r = tasks.ReportComputedTask(task_to_compute=t, size=0)
import datetime
assert helpers.subtask_verification_time(r) == 4 * constants.CMT + 3 * \\
    datetime.timedelta(minutes=1) - datetime.timedelta(seconds=50)
''', 'a subtask whose deadline is before its assignment',
    'the verification time is too long')

bug('c28-long', 'C28', [(K, '''    return _sha3_256(seed).digest()
''', '''    digest = _sha3_256()
    for start in range(0, len(seed), 1 << 12):
        digest = digest if start else _sha3_256()
        digest.update(seed[start & 0xffff:][:1 << 12])
    return digest.digest()
''')], '''
import hashlib
for n in (0, 1, 4095, 4096, 70000):
    d = bytes(i * i % 251 for i in range(n))
    assert cryptography.sha3(d) == hashlib.sha3_256(d).digest(), n
''', 'data of more than 64 KiB', 'a wrong hash')

bug('c29-enum-names', 'C29', [(B, '''            try:
                return self.ENUM_SLOTS[key](value)
            except ValueError as e:
''', '''            try:
                if isinstance(value, str) and \\
                        value in self.ENUM_SLOTS[key].__members__:
                    return self.ENUM_SLOTS[key][value]
                return self.ENUM_SLOTS[key](value)
            except ValueError as e:
''')], '''
m = base.Disconnect(reason=base.Disconnect.REASON.Timeout)
import cbor
wire = shortcuts.dump(m, None, None)
assert refuses(exceptions.FieldError, shortcuts.load,
               wire[:76] + cbor.dumps([['reason', 'Timeout']]), None, None)
''', 'a member\'s name where its value belongs',
    'a value outside the enumeration is accepted')

bug('c30-shared-empty', 'C30', [(P, '''        self.gossip = self.gossip or []
''', '''        self.gossip = self.gossip or self.NOTHING
'''), (P, '''class Gossip(base.Message):
    SIGN = False
''', '''class Gossip(base.Message):
    SIGN = False
    NOTHING = []
''')], '''
a, b = p2p.Gossip(), p2p.Gossip()
a.gossip.append('x')
assert b.gossip == [] and p2p.Gossip().gossip == []
''', 'a message without gossip that is added to',
    'what is added to one message shows in others')

bug('c31-unsigned', 'C31', [(B, '''            and self.sig == obj.sig
''', '''            and (self.sig or obj.sig) == (obj.sig or self.sig)
''')], '''
h = datastructures.MessageHeader(1, 1600000000, False)
a, b = (base.RandVal(header=h, rand_val=1) for _ in range(2))
a.sign_message(A.raw_privkey)
assert a != b
''', 'a signed message and the same one unsigned',
    'messages with different signatures are equal')

bug('c32-mru', 'C32', [(C, '''        for fi in self.files:
            if fi.get('category') == category:
                return fi
''', '''        for fi in self.files:
            if fi.get('category') == category:
                self.files.remove(fi)
                self.files.insert(0, fi)
                return fi
''')], '''
F = concents.FileTransferToken.FileInfo
files = [F(path='a', category=F.Category.results),
         F(path='b', category=F.Category.resources)]
t = concents.FileTransferToken(files=list(files))
t.get_file_info(F.Category.resources)
assert t.files == files
''', 'asking for a file that is not the first',
    'asking changes the (signed) token')

bug('c33-clone-header', 'C33', [(G + 'factories/helpers.py', '''    new_hdr = datastructures.MessageHeader(
        msg.header.type_,
        timestamp,
        msg.encrypted,
    )
''', '''    new_hdr = datastructures.MessageHeader(
        msg.header.type_,
        timestamp,
        False,
    )
''')], '''
from golem_messages.factories.helpers import override_timestamp
m = base.RandVal(header=datastructures.MessageHeader(1, 1600000000, True))
override_timestamp(m, 1600000001)
assert tuple(m.header) == (1, 1600000001, True)
''', 'overriding the time of a message whose flag is set',
    'the header\'s flag is lost')

bug('c34-strip', 'C34', [(V, '''    if not (isinstance(value, str) and len(value) <= max_length):
''', '''    if not (isinstance(value, str) and
            len(value.rstrip()) <= max_length):
''')], '''
from golem_messages import validators
assert refuses(exceptions.FieldError, validators.validate_varchar128, 'x',
               'a' * 128 + ' ')
''', 'a text beyond the limit whose end is white space',
    'a text that is too long is accepted')

bug('c35-hyperdrive-zero', 'C35', [(DP, '''        if self.hyperdrive_pub_port is None:
''', '''        if not self.hyperdrive_pub_port:
''')], '''
n = dt_p2p.Node(hyperdrive_prv_port=5, hyperdrive_pub_port=0)
n.update_public_info()
assert n.hyperdrive_pub_port == 0
''', 'a public hyperdrive port of 0', 'publication overwrites a known port')

bug('c35-order', 'C35', [(DP, '''        return self.to_dict() == other.to_dict()
''', '''        mine, theirs = self.to_dict(), other.to_dict()
        for d in (mine, theirs):
            d['prv_addresses'] = sorted(d['prv_addresses'] or [])
        return mine == theirs
''')], '''
a = dt_p2p.Node(prv_addresses=['10.0.0.1', '10.0.0.2'])
b = dt_p2p.Node(prv_addresses=['10.0.0.2', '10.0.0.1'])
assert a != b
''', 'the same private addresses in another order',
    'nodes that differ are equal')

bug('c36-falsy-pair', 'C36', [(B, '''            if getattr(self, key, None) is None:
''', '''            if not getattr(self, key, None):
''')], '''
m = base.RandVal(slots=[['rand_val', 0]], rand_val=5)
assert m.rand_val == 0
''', 'a pair whose value is 0, empty or False, and a keyword for it',
    'the keyword replaces what was on the wire')

bug('c36-round', 'C36', [(B, '''                calendar.timegm(time.gmtime()),
''', '''                calendar.timegm(time.gmtime(round(time.time()))),
''')], '''
import time
deadline = time.time() + 3
while time.time() < deadline:
    while time.time() % 1 < 0.7:
        pass
    now = int(time.time())
    m = base.RandVal()
    if int(time.time()) == now:
        assert m.timestamp == now
        break
''', 'the second half of a second', 'a message from the future')
