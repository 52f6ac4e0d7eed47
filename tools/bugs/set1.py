"""First set of planted bugs: about one for each property."""
BUGS = []
G = 'golem_messages/'
B, T, C, P = (G + 'message/%s.py' % n
              for n in ('base', 'tasks', 'concents', 'p2p'))
K, V, SER, U = (G + '%s.py' % n
                for n in ('cryptography', 'validators', 'serializer', 'utils'))
D, DM, DS, DP, DT, PN = (G + 'datastructures/%s.py' % n for n in (
    '__init__', 'masking', 'stats', 'p2p', 'tasks', 'promissory'))
HEAD = '''
import warnings
warnings.simplefilter('ignore')
from golem_messages import cryptography, exceptions, message, shortcuts
from golem_messages import datastructures, serializer, utils
from golem_messages.message import base, concents, p2p, tasks
from golem_messages.datastructures import p2p as dt_p2p
from golem_messages.datastructures import tasks as dt_tasks
from golem_messages.datastructures import masking, stats, promissory
A, R, Z = (cryptography.ECCx(None) for _ in range(3))


def refuses(error, f, *args, **kwargs):
    try:
        f(*args, **kwargs)
    except error:
        return True
    return False


def factories():
    from golem_messages import factories as f
    from golem_messages.factories import tasks as ft, concents as fc
    return ft, fc


def ttc(**kwargs):
    ft, _ = factories()
    return ft.TaskToComputeFactory.with_signed_nested_messages(
        requestor_keys=R, provider_keys=A, **kwargs)

'''


def bug(id_, property_, edits, demo, needs, breaks, **kwargs):
    BUGS.append(dict(id=id_, property=property_, edits=edits,
                     demo=HEAD + demo, needs=needs, what_it_breaks=breaks,
                     **kwargs))


bug('c01-list-cap', 'C01', [(B, '''        if value and is_list:
            if not isinstance(value, list):
''', '''        if value and is_list:
            if isinstance(value, list):
                value = value[:100]
            if not isinstance(value, list):
''')], '''
def send(n):
    msg = p2p.RemoveTaskContainer(remove_tasks=[
        p2p.RemoveTask(task_id=str(i)) for i in range(n)])
    for m in msg.remove_tasks:
        m.sign_message(R.raw_privkey)
    data = shortcuts.dump(msg, A.raw_privkey, None)
    return [m.task_id for m in shortcuts.load(data, None, None).remove_tasks]


for n in (1, 5, 150):
    assert send(n) == [str(i) for i in range(n)], n
''', 'a list of more than 100 nested messages, loaded without a sender key',
    'messages beyond the first hundred of a list get lost in loading')

bug('c02-strict-fields', 'C02', [(B, '''            slots_dict = dict(slots)
        except (TypeError, ValueError):
            slots_dict = {}
''', '''            slots_dict = dict(slots)
        except (TypeError, ValueError):
            slots_dict = {}
        for name in slots_dict:
            if not self.valid_slot(name):
                raise exceptions.FieldError("Unknown slot", field=name)
''')], '''
msg = p2p.Degree(degree=3)
data = msg.serialize()
body = serializer.dumps([['degree', 3], ['added_in_2.24.9', 1]])
got = shortcuts.load.__wrapped__ if False else None
try:
    got = shortcuts.load(data[:76] + body, None, None)
except exceptions.MessageError as e:
    raise AssertionError('frame with an added field refused: %r' % e)
assert got.degree == 3
''', 'a peer whose message has a field we do not know',
    'frames with fields added by another patch release are refused')

bug('c03-unsigned-admitted', 'C03', [(B, '''        if sender_public_key and cls.SIGN:
''', '''        if sender_public_key and cls.SIGN and any(sig):
''')], '''
msg = tasks.SubtaskPaymentRequest(subtask_id='x')
data = shortcuts.dump(msg, None, A.raw_pubkey)
assert refuses(exceptions.MessageError, shortcuts.load, data,
               A.raw_privkey, R.raw_pubkey)
''', 'a frame that bears the zeros of an unsigned message, loaded with a key',
    'unsigned messages are taken as the claimed sender\'s')

bug('c03-x-only', 'C28', [(K, '''    if not pk.format(compressed=False) == b'\\04' + pubkey:
''', '''    if not pk.format(compressed=True)[1:] == pubkey[:32]:
''')], '''
P_ = 2 ** 256 - 2 ** 32 - 977
pub = A.raw_pubkey
twin = pub[:32] + (P_ - int.from_bytes(pub[32:], 'big')).to_bytes(32, 'big')
sig = cryptography.ecdsa_sign(A.raw_privkey, b'hello')
assert cryptography.ecdsa_verify(pub, sig, b'hello')
assert refuses(exceptions.InvalidSignature, cryptography.ecdsa_verify,
               twin, sig, b'hello')
''', 'the key with the same x coordinate and the other y (or a wrong y)',
    'a signature also verifies for keys that share the x coordinate only')

bug('c04-header-type', 'C04', [(B, '''            [self.header.type_, self.timestamp, ]
''', '''            [self._type, self.timestamp, ]
''')], '''
msg = p2p.Degree(degree=3)
msg.sign_message(A.raw_privkey)
assert msg.verify_signature(A.raw_pubkey)
msg.header = msg.header._replace(type_=1014)
assert refuses(exceptions.InvalidSignature, msg.verify_signature,
               A.raw_pubkey)
''', 'a signed message whose header\'s type is exchanged',
    'the signature does not cover the type its header claims')

bug('c05-zeros-are-none', 'C05', [(B, '''        sig = data[:cls.SIG_LEN]
        payload = data[cls.SIG_LEN:]
''', '''        sig = data[:cls.SIG_LEN]
        if not any(sig):
            sig = None
        payload = data[cls.SIG_LEN:]
''')], '''
msg = p2p.RemoveTask(task_id='x')
got = shortcuts.load(shortcuts.dump(msg, None, None), None, None)
assert got.sig == bytes(65), got.sig
again = shortcuts.dump(utils.copy_and_sign(got, Z.raw_privkey), None, None)
assert again == msg.serialize()
''', 'an unsigned message loaded, then passed on with a signing key',
    'forwarding an unsigned message signs it in the forwarder\'s name')

bug('c06-iv-unauthenticated', 'C06', [
    (K, 'hmac_sha256(mac_key, msg[1 + 64:] + shared_mac_data)',
     'hmac_sha256(mac_key, ciphertext + shared_mac_data)'),
    (K, 'mac_key, data[1 + 64:- 32] + shared_mac_data)',
     'mac_key, data[1 + 64 + 16:- 32] + shared_mac_data)')], '''
ecies = cryptography.ECIES()
data = bytearray(ecies.encrypt(b'pay 10 to x', A.raw_pubkey))
assert ecies.decrypt(bytes(data), A.raw_privkey) == b'pay 10 to x'
data[65] ^= 1
assert refuses(exceptions.DecryptionError, ecies.decrypt, bytes(data),
               A.raw_privkey)
''', 'a changed initialisation vector',
    'the tag does not cover the iv; a changed one yields garbage as data')

bug('c06-key-prefix', 'C06', [(K, '''        return hash(self.secret)
''', '''        return hash(self.secret[:8])

    def __eq__(self, other):
        return hash(self) == hash(other)
''')], '''
low = [(i + 1).to_bytes(32, 'big') for i in range(3)]
ecies = cryptography.ECIES()
for priv in low:
    data = ecies.encrypt(b'x' * 20, cryptography.privtopub(priv))
    assert ecies.decrypt(data, priv) == b'x' * 20
    for other in low:
        if other != priv:
            assert refuses(exceptions.DecryptionError, ecies.decrypt, data,
                           other)
''', 'two private keys with the same first eight bytes in one process',
    'the key agreement cached for one private key is used for the other',)

bug('c07-own-key-clear', 'C07', [(G + 'shortcuts.py', '''    if pubkey:
''', '''    own = privkey and cryptography.privtopub(privkey) == pubkey
    if pubkey and not own:
''')], '''
msg = p2p.RemoveTask(task_id='secret' * 5)
data = shortcuts.dump(msg, A.raw_privkey, A.raw_pubkey)
assert b'secret' not in data and data[10] == 1
''', 'a message sent with the recipient\'s own key (to oneself)',
    'it travels in the clear though a recipient was given')

bug('c08-synthetic-iv', 'C08', [(K, '''        iv = pyelliptic.Cipher.gen_IV(self.CIPHERNAME)
''', '''        iv = hashlib.sha256(mac_key + data).digest()[:16]
''')], '''
ecies = cryptography.ECIES()
ivs = [ecies.encrypt(b'same', A.raw_pubkey)[65:81] for _ in range(4)]
ivs += [ecies.encrypt(b'other', A.raw_pubkey)[65:81]]
assert len(set(ivs)) == 5
''', 'the same content sent twice to one recipient within the time out',
    'initialisation vectors repeat')

bug('c09-days', 'C09', [(B, '''    if delta_future > settings.FUTURE_TIME_TOLERANCE:
''', '''    if delta_future.seconds > \\
            settings.FUTURE_TIME_TOLERANCE.total_seconds() and \\
            msgdt > now:
''')], '''
import calendar
import time
now = calendar.timegm(time.gmtime())
for ahead in (0, 600, 86400 * 3 + 30):
    h = datastructures.MessageHeader(1001, now + ahead, False)
    data = p2p.Ping(header=h).serialize()
    late = refuses(exceptions.MessageFromFutureError, shortcuts.load, data,
                   None, None)
    assert late == (ahead > 300), ahead
''', 'a time stamp a whole number of days (and at most 5 minutes) ahead',
    'messages from days in the future are accepted')

bug('c10-edge', 'C10', [(B, '''        if not settings.MIN_TIMESTAMP < header.timestamp < \\
                settings.MAX_TIMESTAMP:
''', '''        if header.timestamp not in range(
                settings.MIN_TIMESTAMP, settings.MAX_TIMESTAMP + 1):
''')], '''
from golem_messages import settings
import struct


def head(ts):
    return struct.pack('!HQ?', 1001, ts, False)


read = base.Message.deserialize_header
assert read(head(settings.MIN_TIMESTAMP + 1))
assert read(head(settings.MAX_TIMESTAMP - 1))
for ts in (settings.MIN_TIMESTAMP, settings.MAX_TIMESTAMP, 0):
    assert refuses(exceptions.HeaderError, read, head(ts)), ts
''', 'a time stamp right on one of the limits', 'the limits are let through')

bug('c11-repr', 'C11', [(B, '''        except exceptions.FieldError:
            slots_ = '<unserializable>'
''', '''        except exceptions.SerializationError:
            slots_ = '<unserializable>'
''')], '''
got = shortcuts.load(
    concents.AckForceGetTaskResult().serialize_header() + bytes(65) +
    serializer.dumps([]), None, None, check_time=False)
try:
    assert 'AckForceGetTaskResult' in repr(got)
except exceptions.FieldError:
    raise AssertionError('no way to print it')
''', 'a frame without a nested message it has to have, then logged',
    'what was loaded cannot be printed')

bug('c12-coerce', 'C12', [(B, '''        theirs_v = semantic_version.Version(msg_version)
''', '''        theirs_v = semantic_version.Version.coerce(msg_version)
        msg_version = str(theirs_v)
''')], '''
import golem_messages
v = golem_messages.__version__
base.verify_version(v)
for bad in (v.rsplit('.', 1)[0], v + '.1', '0' + v, '1.0.0'):
    assert refuses(exceptions.VersionMismatchError, base.verify_version,
                   bad), bad
''', 'an announced version that is no semantic version (2.24, 2.24.3.1)',
    'ill formed versions are admitted')

bug('c13-list-or-not', 'C13', [(B, '''        if value and (is_list != slot_definition.is_list):
''', '''        if value and is_list and not slot_definition.is_list:
''')], '''
inner = p2p.RemoveTask(task_id='x')
inner.sign_message(A.raw_privkey)
outer = p2p.RemoveTaskContainer()
frame = outer.serialize_header() + bytes(65)


def load(value):
    return shortcuts.load(frame + serializer.dumps(
        [['remove_tasks', value]]), None, None)


triple = [inner.header, inner.sig, inner.slots()]
assert load([True, [triple]]).remove_tasks[0].task_id == 'x'
assert refuses(exceptions.FieldError, load, [False, triple])
''', 'a single message on the wire in a place for a list',
    'a single message is accepted where a list is declared')

bug('c14-first-child', 'C14', [(T, '''            msg.validate_ownership_chain(concent_public_key=concent_public_key)

        return True
''', '''            return msg.validate_ownership_chain(
                concent_public_key=concent_public_key)

        return True
''')], '''
ft, fc = factories()
t = ttc()
rct = ft.ReportComputedTaskFactory(task_to_compute=t,
                                   sign__privkey=A.raw_privkey)
frct = concents.ForceReportComputedTask(report_computed_task=rct)
frct.sign_message(A.raw_privkey)
ack = tasks.AckReportComputedTask(report_computed_task=rct)
verdict = concents.VerdictReportComputedTask(
    force_report_computed_task=frct, ack_report_computed_task=ack)
ack.sign_message(Z.raw_privkey)
verdict.sign_message(Z.raw_privkey)
assert verdict.validate_ownership_chain(Z.raw_pubkey)
ack.sig = None
ack.sign_message(A.raw_privkey)
verdict.sign_message(Z.raw_privkey)
assert refuses(exceptions.InvalidSignature,
               verdict.validate_ownership_chain, Z.raw_pubkey)
''', 'a message with two nested ones, the second not signed by its issuer',
    'only the first nested message of each is looked at')

bug('c14-header-concent', 'C14', [(T, '''        self.want_to_compute_task.task_header.verify(
            decode_hex(self.requestor_public_key)
        )
''', '''        if self.concent_enabled:
            self.want_to_compute_task.task_header.verify(
                decode_hex(self.requestor_public_key)
            )
''')], '''
for concent in (True, False):
    t = ttc(concent_enabled=concent)
    assert t.validate_ownership()
    t.want_to_compute_task.task_header.sign(Z.raw_privkey)
    t.want_to_compute_task.sign_message(A.raw_privkey)
    t.sign_message(R.raw_privkey)
    assert refuses(exceptions.InvalidSignature, t.validate_ownership)
''', 'an assignment without Concent and a header signed by someone else',
    'whose task header it is goes unchecked')

bug('c15-elif', 'C15', [(T, '''        if requestor_public_key:
            assert_role('requestor',
''', '''        elif requestor_public_key:
            assert_role('requestor',
''')], '''
t = ttc()
assert t.verify_owners(A.raw_pubkey, R.raw_pubkey)
assert refuses(exceptions.OwnershipMismatch, t.verify_owners,
               requestor_public_key=Z.raw_pubkey)
assert refuses(exceptions.OwnershipMismatch, t.verify_owners,
               Z.raw_pubkey, R.raw_pubkey)
assert refuses(exceptions.OwnershipMismatch, t.verify_owners,
               A.raw_pubkey, Z.raw_pubkey)
''', 'both keys given, the provider\'s right, the requestor\'s wrong',
    'the requestor is not looked at when a provider is given')

bug('c16-first-only', 'C16', [(T, '''        msgs = [getattr(self, slot)
                for slot in self.TASK_ID_PROVIDERS
                if hasattr(self, slot)]
''', '''        msgs = [getattr(self, slot)
                for slot in self.TASK_ID_PROVIDERS[:2]
                if hasattr(self, slot)]
''')], '''
t = ttc()
cct = tasks.CannotComputeTask(
    task_to_compute=t, reason=tasks.CannotComputeTask.REASON.WrongKey)
msg = tasks.RejectReportComputedTask(cannot_compute_task=cct)
assert msg.task_id == t.task_id and msg.task_to_compute == t
assert msg.subtask_id == t.subtask_id and msg.provider_id == t.provider_id
''', 'a rejection that carries only the third of its optional messages',
    'its task is not found')

bug('c17-empty-id', 'C17', [(T, '''            if not idgenerator.check_id_hex_seed(value, self.requestor_id):
''', '''            if value and not idgenerator.check_id_hex_seed(
                    value, self.requestor_id):
''')], '''
def load(subtask_id):
    t = ttc()
    t.compute_task_def['subtask_id'] = subtask_id or t.subtask_id
    if subtask_id == '':
        t.compute_task_def['subtask_id'] = ''
    return shortcuts.load(shortcuts.dump(t, None, None), None, None)


assert load(None)
assert refuses(exceptions.FieldError, load, 'b' * 32)
assert refuses(exceptions.FieldError, load, '')
''', 'an assignment whose task or subtask id is the empty default',
    'it loads although it binds no one')

bug('c18-and', 'C18', [(T, '''                    self.task_id != fgtrf.task_id or
''', '''                    self.task_id != fgtrf.task_id and
''')], '''
ft, fc = factories()
rct = ft.ReportComputedTaskFactory(task_to_compute=ttc())
RE = tasks.SubtaskResultsRejected.REASON


def rejection(of):
    return tasks.SubtaskResultsRejected(
        report_computed_task=rct, reason=RE.ForcedResourcesFailure,
        force_get_task_result_failed=concents.ForceGetTaskResultFailed(
            task_to_compute=of))


assert rejection(rct.task_to_compute).is_valid()
same_task = ttc(task_id=rct.task_id)
assert same_task.task_id == rct.task_id
assert same_task.subtask_id != rct.subtask_id
assert refuses(exceptions.ValidationError, rejection(ttc()).is_valid)
assert refuses(exceptions.ValidationError, rejection(same_task).is_valid)
''', 'a failure notice about another subtask of the same task',
    'it is accepted as reason for the rejection')

bug('c18-edge', 'C18', [(T, '''                settings.PAYMENT_TIMESTAMP_TOLERANCE.total_seconds() < \\
''', '''                settings.PAYMENT_TIMESTAMP_TOLERANCE.total_seconds() <= \\
''')], '''
ft, fc = factories()
for back in (0, 899, 900):
    msg = ft.SubtaskResultsAcceptedFactory()
    msg.payment_ts = msg.timestamp - back
    assert not refuses(exceptions.ValidationError, msg.is_valid), back
msg.payment_ts = msg.timestamp - 901
assert refuses(exceptions.ValidationError, msg.is_valid)
''', 'a payment time exactly fifteen minutes before the message',
    'it is refused')

bug('c19-zero-amount', 'C19', [(PN, '''        if not promissory_note_sig:
            return False
''', '''        if not promissory_note_sig:
            return not self.amount
''')], '''
note = promissory.PromissoryNote(
    utils.pubkey_to_address(utils.encode_hex(A.raw_pubkey)),
    utils.pubkey_to_address(utils.encode_hex(R.raw_pubkey)),
    0, '0dd6ec8c-5d66-11e9-8647-d663bd873d93', '0x' + '12' * 20)
assert note.sig_valid(note.sign(A.raw_privkey))
assert not note.sig_valid(note.sign(R.raw_privkey))
assert not note.sig_valid(None)
''', 'a note over nothing and no signature', 'an unsigned note is valid')

bug('c20-sorted', 'C20', [(D, '''        for key in self.__slots__:
            value = getattr(self, key, None)
            if isinstance(value, enum.Enum):
''', '''        for key in sorted(self.__slots__):
            value = getattr(self, key, None)
            if isinstance(value, enum.Enum):
''')], '''
import hashlib
import cbor
h = dt_tasks.TaskHeader(
    task_id='t', task_owner={'node_name': 'n'}, subtasks_count=1,
    min_version='1.2.3', timestamp=1500000000)
node = dict.fromkeys((
    'node_name key prv_port pub_port p2p_prv_port p2p_pub_port prv_addr '
    'pub_addr prv_addresses hyperdrive_prv_port hyperdrive_pub_port '
    'port_statuses nat_type').split())
node.update(node_name='n', prv_addresses=[], port_statuses={}, nat_type=[])
fields = dict.fromkeys((
    'mask timestamp task_id task_owner deadline subtask_timeout market_type '
    'environment environment_prerequisites min_version estimated_memory '
    'max_price subtask_budget subtasks_count concent_enabled').split())
fields.update(task_id='t', task_owner=node, subtasks_count=1,
              min_version='1.2.3', timestamp=1500000000)
assert h.get_hash() == hashlib.sha1(cbor.dumps(fields)).digest()
''', 'a header signed by a node that has not got the change',
    'the hash is another than the protocol\'s')

bug('c21-zero-stats', 'C21', [(DS, '''        return PidStats(**value) if value else None
''', '''        return PidStats(**value) if any(value.values()) else None
''')], '''
s = stats.ProviderStats(pids_stats={'current': 0, 'limit': 0})
assert s.to_dict()['pids_stats'] == {'current': 0, 'limit': 0}
assert stats.ProviderStats(pids_stats={'current': 1}).pids_stats.current == 1
''', 'statistics that are all zero', 'they are dropped')

bug('c21-shared-default', 'C21', [(DP, '''        'prv_addresses': lambda: [],
''', '''        'prv_addresses': lambda known=[]: known,
''')], '''
a, b = dt_p2p.Node(), dt_p2p.Node()
assert a == b
a.prv_addresses.append('10.0.0.1')
assert b.prv_addresses == [] and dt_p2p.Node().prv_addresses == []
''', 'a node whose defaulted list is changed in place',
    'it shows up in all other nodes')

bug('c22-mixed', 'C22', [(D, '''        for key in kwargs:
            self[key] = kwargs[key]

    def update''', '''        for key in kwargs if not args else ():
            self[key] = kwargs[key]

    def update''')], '''
class Some(datastructures.FrozenDict):
    ITEMS = {'a': 1, 'b': 2}


assert Some({'a': 5}) == {'a': 5, 'b': 2}
assert Some(b=7) == {'a': 1, 'b': 7}
assert Some({'a': 5}, b=7) == {'a': 5, 'b': 7}
assert refuses(KeyError, Some, {'a': 5}, c=7)
''', 'a mapping and keywords in one construction', 'the keywords are ignored')

bug('c22-shallow', 'C22', [(D, 'self[k] = copy.deepcopy(v)',
                            'self[k] = copy.copy(v)')], '''
class Some(datastructures.FrozenDict):
    ITEMS = {'a': {'list': []}}


x, y = Some(), Some()
x['a']['list'].append(1)
assert y['a'] == {'list': []} and Some()['a'] == {'list': []}
''', 'a default with something changeable inside something changeable',
    'the inner part is shared by all instances')

bug('c23-hex-case', 'C23', [(G + 'idgenerator.py', '''    seed = utils.decode_hex(hex_seed)
    return check_id_seed(id_, seed)
''', '''    try:
        return uuid.UUID(id_).hex.endswith(hex_seed[:2 * SEED_LEN])
    except ValueError:
        return False
''')], '''
from golem_messages import idgenerator
seed = bytes.fromhex('abcdef12345678')
id_ = idgenerator.generate_id(seed)
assert idgenerator.check_id_seed(id_, seed)
assert idgenerator.check_id_hex_seed(id_, seed.hex())
assert idgenerator.check_id_hex_seed(id_, seed.hex().upper())
assert not idgenerator.check_id_hex_seed(id_, 'fe' * 6)
''', 'a key in upper case hex', 'its own id is refused')

bug('c24-low-free-bits', 'C24', [(DM, '''        bits |= set(random.sample(self.ALL_BITS - bits, num_bits))
''', '''        free = sorted(self.ALL_BITS - bits)[:num_bits + 200]
        bits |= set(random.sample(free, num_bits))
''')], '''
seen = set()
for _ in range(3000):
    m = masking.Mask()
    m.increase(3)
    assert m.num_bits == 3
    seen |= m.to_bits()
assert len(seen) == 256
''', 'growing a mask by few bits, many times over',
    'the top bits are never chosen')

bug('c25-trace', 'C25', [(G + 'register.py', '''            if type_ in self._types:
''', '''            self._reversed[message_class] = type_
            if type_ in self._types:
''')], '''
from golem_messages import register


class One:
    pass


class Two:
    pass


r = register.MessageRegister()
r.register(1)(One)
assert refuses(RuntimeError, r.register(1), Two)
assert r[1] is One and r.get_type(One) == 1
assert refuses(KeyError, r.get_type, Two)
''', 'asking for the number of the kind whose registration failed',
    'the refused kind has a number')

bug('c26-sort-keys', 'C26', [(SER, '''dumps = wrap_error(exceptions.SerializationError)(cbor.dumps)
''', '''dumps = wrap_error(exceptions.SerializationError)(
    functools.partial(cbor.dumps, sort_keys=True))
''')], '''
value = {'b': 1, 'a': {'z': 1, 'c': 2}}
got = serializer.loads(serializer.dumps(value))
assert got == value and list(got) == ['b', 'a'] and list(got['a']) == \\
    ['z', 'c']
''', 'a dictionary whose keys are not in alphabetical order',
    'the order is lost, signatures over the old order with it',
    any_error=True)

bug('c26-narrow', 'C26', [(SER, '''            except Exception as e:
''', '''            except (TypeError, ValueError, EOFError) as e:
''')], '''
for data in (b'\\x81' * 100000, b'\\xd8', b'', b'\\x5f\\x01', b'\\xff',
             b'\\x9b' + b'\\xff' * 8, b'\\xf9\\x00'):
    try:
        assert refuses(exceptions.SerializationError, serializer.loads, data)
    except exceptions.MessageError:
        raise
    except (AssertionError, Exception) as e:
        raise AssertionError('%r: %r' % (data[:9], e))
''', 'bytes that make the decoder fail in an unusual way (deep nesting)',
    'other exceptions than a serialization error come out')

bug('c27-days', 'C27', [(G + 'helpers.py', '''    subtask_timeout = subtask_dt - ttc_dt
''', '''    subtask_timeout = datetime.timedelta(
        seconds=(subtask_dt - ttc_dt).seconds)
''')], '''
import datetime
from golem_messages import helpers
ft, fc = factories()
for hours in (1, 23, 49):
    rct = ft.ReportComputedTaskFactory(size=48 << 10)
    t = rct.task_to_compute
    t.compute_task_def['deadline'] = t.timestamp + 3600 * hours
    assert helpers.subtask_verification_time(rct) == datetime.timedelta(
        seconds=16 * 60 + 3 * 61 + 1800 * hours), hours
''', 'a subtask with more than a day to its deadline',
    'whole days do not count')

bug('c28-0x', 'C28', [(U, '''        return str(binascii.hexlify(b), 'utf-8')
''', '''        return str(binascii.hexlify(
            b[2:] if b[:2] == b'0x' else b), 'utf-8')
''')], '''
for raw in (b'\\x01\\x02', b'0', b'0x', b'0x' + bytes(range(62))):
    assert utils.decode_hex(utils.encode_hex(raw)) == raw, raw
''', 'bytes that begin with the codes of "0x"',
    'these are cut off; the hex is not that of the bytes')

bug('c29-none-skip', 'C29', [(B, '''            else:
                value = self.deserialize_slot(name, value)
            setattr(self, name, value)
''', '''            if value is not None:
                value = self.deserialize_slot(name, value)
            setattr(self, name, value)
''')], '''
t = ttc()
t.size = None
t.sign_message(R.raw_privkey)
assert refuses(exceptions.FieldError, shortcuts.load,
               shortcuts.dump(t, None, None), None, R.raw_pubkey)
peers = p2p.Peers()
frame = peers.serialize_header() + bytes(65)
assert refuses(exceptions.FieldError, shortcuts.load,
               frame + serializer.dumps([['peers', None]]), None, None)
''', 'an explicit nothing in a field that must not be nothing',
    'it escapes the rules of the field')

bug('c30-loads-cache', 'C30', [(SER, '''loads = wrap_error(exceptions.SerializationError)(cbor.loads)
''', '''loads = wrap_error(exceptions.SerializationError)(
    functools.lru_cache(maxsize=64)(cbor.loads))
''')], '''
msg = p2p.Gossip(gossip=[['a', 1], ['b', 2]])
data = shortcuts.dump(msg, None, None)
one = shortcuts.load(data, None, None)
one.gossip[0].append('scribble')
two = shortcuts.load(data, None, None)
assert two.gossip == [['a', 1], ['b', 2]], two.gossip
''', 'the same bytes loaded twice and the first message changed in place',
    'the second message shows what was done to the first')

bug('c31-subclass', 'C31', [(B, '''            self.__class__ is obj.__class__
''', '''            isinstance(obj, Message) and isinstance(self, obj.__class__)
''')], '''
class Mine(p2p.Degree):
    __slots__ = p2p.Degree.__slots__

    @property
    def _type(self):
        return 1010


a = p2p.Degree(degree=1)
b = Mine(header=a.header, degree=1)
assert a == p2p.Degree(header=a.header, degree=1)
assert a != b and b != a
''', 'a subclass\'s message on the right hand side',
    'equality does not go both ways')

bug('c32-upload-none', 'C32', [(C, '''        return self.operation == self.Operation.upload
''', '''        return self.operation != self.Operation.download
''')], '''
FTT = concents.FileTransferToken
assert FTT(operation=FTT.Operation.upload).is_upload
assert not FTT(operation=FTT.Operation.download).is_upload
token = FTT(files=[])
assert not token.is_upload and not token.is_download
''', 'a token that names no operation', 'it allows upload')

bug('c33-task-id', 'C33', [(G + 'factories/tasks.py', '''        if extracted:
            _task_id = extracted
''', '''        if extracted and not _task_id:
            _task_id = extracted
''')], '''
ft, fc = factories()
from golem_messages import idgenerator
R_ = R
key = utils.encode_hex(R.raw_pubkey)
own = idgenerator.generate_id(R.raw_pubkey)
assert ttc(task_id=own).task_id == own
assert ft.TaskToComputeFactory(
    requestor_public_key=key, task_id=own,
    want_to_compute_task__task_header__task_owner__key=key).task_id == own
''', 'a task id given to the factory along with a task header of the requestor',
    'the given id is ignored')

bug('c34-bytes', 'C34', [(V, '''    if not (isinstance(value, str) and len(value) <= max_length):
''', '''    if not (isinstance(value, str) and
            len(value.encode('utf-8', 'replace')) <= max_length):
''')], '''
from golem_messages import validators
validators.validate_varchar128('f', 'x' * 128)
try:
    validators.validate_varchar128('f', '\\u017c' * 128)
except exceptions.FieldError:
    raise AssertionError('128 characters refused')
assert refuses(exceptions.FieldError, validators.validate_varchar128, 'f',
               'x' * 129)
''', 'a text near the limit with letters of several bytes',
    'the limit counts bytes')

bug('c34-partial', 'C34', [(V, '''def validate_version(field_name, value):
''', '''def validate_version(field_name, value):
    if isinstance(value, str) and value.isdigit():
        value += '.0.0'
''')], '''
from golem_messages import validators
validators.validate_version('f', '1.2.3-rc.1')
for bad in ('1', '1.2', 'x', None):
    assert refuses(exceptions.FieldError, validators.validate_version, 'f',
                   bad), bad
''', 'a version of a single number', 'it is accepted')
