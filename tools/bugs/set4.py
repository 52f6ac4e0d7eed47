"""Fourth set of planted bugs: histories, faults, caches, odd inputs."""
import os
import runpy

_first = runpy.run_path(os.path.join(os.path.dirname(
    os.path.abspath(__file__)), 'set1.py'))
HEAD = _first['HEAD']
BUGS = []
G = 'golem_messages/'
B, T, C, P = (G + 'message/%s.py' % n
              for n in ('base', 'tasks', 'concents', 'p2p'))
K, V, SER, U, S, I, H = (G + '%s.py' % n for n in (
    'cryptography', 'validators', 'serializer', 'utils', 'shortcuts',
    'idgenerator', 'helpers'))
D, DM, DS, DP, DT, PN = (G + 'datastructures/%s.py' % n for n in (
    '__init__', 'masking', 'stats', 'p2p', 'tasks', 'promissory'))


def bug(id_, property_, edits, demo, needs, breaks, **kwargs):
    BUGS.append(dict(id=id_, property=property_, edits=edits,
                     demo=HEAD + demo, needs=needs, what_it_breaks=breaks,
                     **kwargs))


bug('c01-deadline-float', 'C01', [(T, '''        if key == 'compute_task_def':
            value = ComputeTaskDef(value)
''', '''        if key == 'compute_task_def':
            value = ComputeTaskDef(value)
            if isinstance(value['deadline'], float):
                value['deadline'] = int(value['deadline'])
''')], '''
t = ttc()
t.compute_task_def['deadline'] = 1900000000.5
t.sig = None
got = shortcuts.load(shortcuts.dump(t, R.raw_privkey, None), None, None)
assert got.compute_task_def['deadline'] == 1900000000.5
''', 'a definition whose deadline is a fraction of a second',
    'it comes back without the fraction')

bug('c02-kept-payload', 'C02', [(B, '''        self.encrypted = bool(self.ENCRYPT and encrypt_func)
        payload = serializer.dumps(self.slots())
''', '''        self.encrypted = bool(self.ENCRYPT and encrypt_func)
        kept = _received.get(id(self))
        if kept and kept[0] is self and kept[1] == self.sig:
            payload = kept[2]
        else:
            payload = serializer.dumps(self.slots())
'''), (B, '''        slots = serializer.loads(payload)

        instance = cls(
            header=header,
            sig=sig,
            slots=slots,
            deserialized=True,
            **kwargs,
        )
''', '''        slots = serializer.loads(payload)

        instance = cls(
            header=header,
            sig=sig,
            slots=slots,
            deserialized=True,
            **kwargs,
        )
        # forwarded as it came
        if len(_received) > 64:
            _received.clear()
        _received[id(instance)] = instance, sig, payload
'''), (B, '''def verify_time(timestamp):
''', '''_received = {}


def verify_time(timestamp):
''')], '''
m = base.RandVal(rand_val=1)
got = shortcuts.load(shortcuts.dump(m, A.raw_privkey, None), None, None)
got.rand_val = 2
again = shortcuts.load(shortcuts.dump(got, None, None), None, None)
assert again.rand_val == 2
''', 'a loaded message is changed and sent again with its signature',
    'the bytes still carry the old content')

bug('c03-short-digest', 'C03', [(K, '''    pk = PrivateKey(privkey)
    msghash = sha3(msghash)
''', '''    pk = PrivateKey(privkey)
    msghash = sha3(msghash[:20])
'''), (K, '''    verify_pubkey(pubkey)
    message = sha3(message)
''', '''    verify_pubkey(pubkey)
    message = sha3(message[:20])
''')], '''
import golem_messages
import struct
v = golem_messages.__version__
wire = shortcuts.dump(base.Hello(rand_val=1), A.raw_privkey, None)
altered = wire[:-32] + struct.pack('!32p', (v.rsplit('.', 1)[0] + '.99')
                                   .encode())
assert refuses(exceptions.InvalidSignature, shortcuts.load, altered, None,
               A.raw_pubkey)
''', 'a Hello whose version was changed to another of the same series',
    'the altered greeting is taken for genuine')

bug('c04-len-hash', 'C04', [(B, '''        sha.update(payload or b'')
        return sha.digest()
''', '''        payload = payload or b''
        for start in range(0, min(len(payload), 1 << 20), 1 << 12):
            sha.update(payload[start:start + (1 << 12)])
        return sha.digest()
''')], '''
m = p2p.RemoveTask(task_id='x' * (1 << 20) + 'end')
m.sign_message(A.raw_privkey)
m.task_id = m.task_id[:-1] + 'X'
assert refuses(exceptions.InvalidSignature, m.verify_signature, A.raw_pubkey)
''', 'content of more than a megabyte, changed near its end',
    'the signature still verifies')

bug('c05-refused-flag', 'C05', [(B, '''        if sign_as and self.sig:
            # If you wish to overwrite signature,
            # first set it to None explicitly
            raise exceptions.SignatureAlreadyExists()

        self.encrypted = bool(self.ENCRYPT and encrypt_func)
''', '''        self.encrypted = bool(self.ENCRYPT and encrypt_func)

        if sign_as and self.sig:
            # If you wish to overwrite signature,
            # first set it to None explicitly
            raise exceptions.SignatureAlreadyExists()

''')], '''
m = base.RandVal(rand_val=1)
shortcuts.dump(m, A.raw_privkey, None)
assert refuses(exceptions.SignatureAlreadyExists, shortcuts.dump, m,
               A.raw_privkey, R.raw_pubkey)
assert m.encrypted is False
''', 'a signed message is dumped with a signing key and for a recipient',
    'the refused dump changes the message')

bug('c05-failed-dump', 'C05', [(B, '''        self.encrypted = bool(self.ENCRYPT and encrypt_func)
        payload = serializer.dumps(self.slots())

        # When''', '''        self.encrypted = bool(self.ENCRYPT and encrypt_func)
        if not self.SIGN or not (sign_as or self.sig):
            self._fake_sign()
        payload = serializer.dumps(self.slots())

        # When''')], '''
m = base.RandVal(rand_val=object())
assert refuses(exceptions.MessageError, shortcuts.dump, m, None, None)
assert m.sig is None
m.rand_val = 5
wire = shortcuts.dump(m, A.raw_privkey, None)
assert shortcuts.load(wire, None, A.raw_pubkey).rand_val == 5
''', 'a dump without key fails because of the content, which is then '
    'corrected and dumped with a key',
    'the failed dump leaves a signature behind')

bug('c06-hex-key', 'C06', [(K, '''        tag = data[-32:]
        assert len(tag) == 32

        # 2) verify tag
''', '''        tag = data[-32:]
        if not data[-32:].strip(b'\\0'):
            tag = pyelliptic.hmac_sha256(
                mac_key, data[1 + 64:-32] + shared_mac_data)
        assert len(tag) == 32

        # 2) verify tag
''')], '''
e = cryptography.ECIES()
ct = e.encrypt(b'data', A.raw_pubkey)
assert refuses(exceptions.DecryptionError, e.decrypt,
               ct[:-32] + bytes(32), A.raw_privkey)
''', 'a text whose tag is all zeros', 'it opens')

bug('c07-fallback-clear', 'C07', [(B, '''        if self.encrypted:
            payload = encrypt_func(payload)
''', '''        if self.encrypted:
            try:
                payload = encrypt_func(payload)
            except ValueError:
                logger.warning('Cannot encrypt for this recipient')
                self.encrypted = False
''')], '''
m = p2p.RemoveTask(task_id='secret')
try:
    wire = shortcuts.dump(m, A.raw_privkey, b'\\x07' * 64)
except Exception:
    wire = b''
assert b'secret' not in wire
''', 'a recipient whose key is no point of the curve',
    'the message is sent in the clear')

bug('c08-collide', 'C08', [(K, '''        return self._generate_ephem_key(raw_pubkey)

    @lru_cache(maxsize=1024)
    def _generate_ephem_key(
            self, raw_pubkey: bytes) -> Tuple[bytes, bytes, bytes]:
''', '''        key = self._generate_ephem_key(raw_pubkey)
        self._current = key[2]
        return key

    @lru_cache(maxsize=1024)
    def _generate_ephem_key(
            self, raw_pubkey: bytes) -> Tuple[bytes, bytes, bytes]:
'''), (K, '''        msg = ephem_pubkey + iv + ciphertext

''', '''        msg = getattr(self.key_manager, '_current', ephem_pubkey) \\
            + iv + ciphertext

''')], '''
import sys
import threading
sys.setswitchinterval(1e-6)
e = cryptography.ECIES()
bad = []


def send(key):
    for _ in range(400):
        ct = e.encrypt(b'data' * 50, key.raw_pubkey)
        if refuses(Exception, e.decrypt, ct, key.raw_privkey):
            bad.append(ct)


ts = [threading.Thread(target=send, args=(k,)) for k in (A, R, Z, A, R, Z)]
[t.start() for t in ts]
[t.join() for t in ts]
assert not bad
''', 'several threads encrypting for several recipients with one manager',
    'a text goes out under the ephemeral key of another recipient')

bug('c09-replay', 'C09', [(B, '''    now = datetime.datetime.utcnow()
    try:
        msgdt''', '''    if timestamp in _recent:
        return
    now = datetime.datetime.utcnow()
    try:
        msgdt'''), (B, '''                delta_future,
                settings.FUTURE_TIME_TOLERANCE
            ),
        )
''', '''                delta_future,
                settings.FUTURE_TIME_TOLERANCE
            ),
        )
    _recent.append(timestamp)
'''), (B, '''def verify_time(timestamp):
''', '''_recent = collections.deque(maxlen=32)


def verify_time(timestamp):
''')], '''
import datetime as dt
from golem_messages import settings
m = base.RandVal(rand_val=1)
wire = shortcuts.dump(m, A.raw_privkey, None)
shortcuts.load(wire, None, A.raw_pubkey)
real = base.datetime


class Later(dt.datetime):
    @classmethod
    def utcnow(cls):
        return dt.datetime.utcnow() + settings.MSG_TTL * 3


class Mod:
    datetime = Later


base.datetime = Mod
try:
    assert refuses(exceptions.MessageTooOldError, shortcuts.load, wire, None,
                   A.raw_pubkey)
finally:
    base.datetime = real
''', 'the same frame is loaded fresh and again much later',
    'the replayed frame is accepted')

bug('c11-narrow', 'C11', [(SER, '''            except Exception as e:
                logger''', '''            except (ValueError, TypeError, LookupError, EOFError,
                    ArithmeticError, AttributeError) as e:
                logger'''), (B, '''        except exceptions.MessageError:
            raise
        except Exception as e:
            raise exceptions.MessageError("Deserialization failed") from e
''', '''        except (exceptions.MessageError, RuntimeError):
            raise
        except Exception as e:
            raise exceptions.MessageError("Deserialization failed") from e
''')], '''
import struct
deep = b'\\x81' * 200000 + b'\\x00'
import time
wire = struct.pack('!HQ?', 1, int(time.time()), False) + b'1' * 65 + deep
try:
    shortcuts.load(wire, None, None)
except exceptions.MessageError:
    pass
except Exception as e:
    assert False, type(e)
''', 'a payload nested two hundred thousand levels deep',
    'load raises a RecursionError')

bug('c13-skip-none', 'C13', [(B, '''                self.deserialize_message_single(key, serialized_msg)
                for serialized_msg
                in value
            ]
''', '''                self.deserialize_message_single(key, serialized_msg)
                for serialized_msg
                in value
                if serialized_msg or not slot_definition.is_list
            ]
''')], '''
import cbor
import struct
import time
inner = p2p.RemoveTask(task_id='x')
inner.sign_message(A.raw_privkey)
one = [list(inner.header), inner.sig, inner.slots()]
for junk in (None, [], {}, 0):
    body = cbor.dumps([['remove_tasks', [True, [one, junk]]]])
    wire = struct.pack('!HQ?', 1024 + 0, int(time.time()), False)
    m = p2p.RemoveTaskContainer
    wire = struct.pack('!HQ?', base.library.get_type(m), int(time.time()),
                       False) + bytes(65) + body
    assert refuses(exceptions.MessageError, shortcuts.load, wire, None, None)
''', 'a list of nested messages in which one is nothing',
    'the hole is skipped silently')

bug('c16-remembered', 'C16', [(T, '''        for msg in msgs:
            val = getattr(msg, attr_name, None)
            if val:
                return val
        return None
''', '''        memo = _task_values.get(id(self))
        if memo and memo[0] is self and attr_name in memo[1]:
            return memo[1][attr_name]
        for msg in msgs:
            val = getattr(msg, attr_name, None)
            if val:
                if len(_task_values) > 256:
                    _task_values.clear()
                _task_values.setdefault(id(self), (self, {}))[1][attr_name] \\
                    = val
                return val
        return None
'''), (T, '''class TaskMessage(base.Message):
''', '''_task_values = {}


class TaskMessage(base.Message):
''')], '''
t1, t2 = ttc(), ttc()
m = tasks.TaskFailure(task_to_compute=t1)
assert m.task_id == t1.task_id
m.task_to_compute  # asked
m = tasks.ReportComputedTask(task_to_compute=t1)
a = tasks.AckReportComputedTask(report_computed_task=m)
assert a.task_id == t1.task_id
a.report_computed_task = tasks.ReportComputedTask(task_to_compute=t2)
assert a.task_id == t2.task_id
''', 'a message is asked for its task, its member replaced, and asked again',
    'the old task is named')

bug('c19-contract-memo', 'C19', [(PN, '''    @property
    def hash(self):
        return eth_account.messages.defunct_hash_message(hexstr=self.hexmsg)
''', '''    _hashes: typing.Dict[tuple, bytes] = {}

    @property
    def hash(self):
        key = (self.address_from, self.address_to, self.amount,
               self.subtask_id)
        if key not in self._hashes:
            if len(self._hashes) > 100:
                self._hashes.clear()
            self._hashes[key] = eth_account.messages.defunct_hash_message(
                hexstr=self.hexmsg)
        return self._hashes[key]
''')], '''
addr = utils.pubkey_to_address(A.raw_pubkey)
note = promissory.PromissoryNote(addr, '0x' + '12' * 20, 5,
                                 '00000000-0000-1000-8000-000000000001',
                                 '0x' + '34' * 20)
sig = note.sign(A.raw_privkey)
assert note.sig_valid(sig)
note.contract_address = '0x' + '56' * 20
assert not note.sig_valid(sig)
''', 'two notes that differ in the contract only, one after the other',
    'the signature for one contract is good for the other')

bug('c20-sign-once', 'C20', [(DT, '''    def sign(self, private_key: bytes) -> None:
        self.signature''', '''    def sign(self, private_key: bytes) -> None:
        try:
            if self.signature and self.verify(cryptography.privtopub(
                    private_key)):
                return
        except exceptions.InvalidSignature:
            if self.market_type is not None:
                return
        self.signature''')], '''
ft, _ = factories()
th = ttc().want_to_compute_task.task_header
th.deadline += 1
th.sign(R.raw_privkey)
assert not refuses(exceptions.InvalidSignature, th.verify, R.raw_pubkey)
''', 'a signed header is changed and signed again',
    'the old signature stays')

bug('c26-recursion', 'C26', [(SER, '''            except Exception as e:
                logger''', '''            except (ValueError, TypeError, LookupError, EOFError,
                    ArithmeticError, AttributeError) as e:
                logger''')], '''
v = []
for _ in range(100000):
    v = [v]
try:
    serializer.dumps(v)
except exceptions.SerializationError:
    pass
except Exception as e:
    assert False, type(e)
''', 'a value nested deeper than the interpreter allows',
    'a RecursionError comes out')

bug('c27-leap', 'C27', [(H, '''    return (4 * constants.CMT) + (3 * mdt) + (0.5 * subtask_timeout)
''', '''    return (4 * constants.CMT) + (3 * mdt) + datetime.timedelta(
        seconds=subtask_timeout.total_seconds() // 2)
''')], '''
from golem_messages import helpers
ft, _ = factories()
t = ttc()
r = ft.ReportComputedTaskFactory(task_to_compute=t, size=1)
t.compute_task_def['deadline'] = t.timestamp + 7
assert helpers.subtask_verification_time(r).microseconds == 500000
''', 'a timeout of an odd number of seconds', 'half a second is lost')

bug('c29-numeric-strings', 'C29', [(T, '''        if key == 'num_subtasks':
            validators.validate_positive_integer(key, value)
''', '''        if key == 'num_subtasks' and value:
            validators.validate_positive_integer(key, value)
''')], '''
import cbor
import struct
import time
w = tasks.WantToComputeTask(num_subtasks=1)
slots = [[k, 0 if k == 'num_subtasks' else v] for k, v in w.slots()]
wire = struct.pack('!HQ?', base.library.get_type(type(w)), int(time.time()),
                   False) + bytes(65) + cbor.dumps(slots)
assert refuses(exceptions.FieldError, shortcuts.load, wire, None, None)
''', 'an offer for zero subtasks', 'it is loaded')

bug('c30-repr-sort', 'C30', [(DP, '''    def __repr__(self) -> str:
        return "<Node''', '''    def __repr__(self) -> str:
        self.prv_addresses.sort()
        return "<Node''')], '''
n = dt_p2p.Node(node_name='x', prv_addresses=['10.0.0.2', '10.0.0.1'])
repr(n)
assert n.prv_addresses == ['10.0.0.2', '10.0.0.1']
''', 'a node with several private addresses is printed',
    'their order changes')

bug('c31-node-order', 'C31', [(B, '''            and self.sig == obj.sig
            and self.slots() == obj.slots()
''', '''            and self.sig == obj.sig
            and repr(self.slots()) == repr(obj.slots())
''')], '''
h = datastructures.MessageHeader(1, 1600000000, False)
a = base.RandVal(header=h, rand_val={'a': 1, 'b': 2})
b = base.RandVal(header=h, rand_val={'b': 2, 'a': 1})
assert a == b and not a != b
''', 'fields that hold equal mappings filled in another order',
    'equal messages are called different')

bug('c35-eq-partial', 'C35', [(DP, '''        return self.to_dict() == other.to_dict()
''', '''        ours, theirs = self.to_dict(), other.to_dict()
        if self.key and ours['key'] == theirs['key']:
            # the same node, wherever its port checks stand
            ours.pop('port_statuses')
            theirs.pop('port_statuses')
        return ours == theirs
''')], '''
a = dt_p2p.Node(node_name='x', key='k', port_statuses={1: 'open'})
b = dt_p2p.Node(node_name='x', key='k', port_statuses={1: 'timeout'})
assert a != b
''', 'two nodes with the same key and different port statuses',
    'they are called equal')

bug('c36-cached-now', 'C36', [(B, '''                calendar.timegm(time.gmtime()),
                False,
            )
''', '''                _now(),
                False,
            )
'''), (B, '''def verify_time(timestamp):
''', '''_clock: typing.Dict[str, float] = {}


def _now():
    tick = time.monotonic()
    if not _clock or tick - _clock['tick'] > 0.2:
        _clock['tick'] = tick
        _clock['now'] = calendar.timegm(time.gmtime())
    return int(_clock['now'])


def verify_time(timestamp):
''')], '''
import time
bad = 0
base.RandVal()
for _ in range(30):
    left = 1 - time.time() % 1
    time.sleep(max(0, left - 0.1) if left > 0.1 else left + 0.9)
    base.RandVal()
    time.sleep(0.12)
    before = int(time.time())
    bad += base.RandVal().timestamp < before
    if _ == 3:
        break
assert not bad
''', 'messages made just before and just after the second changes',
    'the second bears the previous second')
