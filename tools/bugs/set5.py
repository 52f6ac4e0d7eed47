"""Fifth set of planted bugs: conditions on values, sizes and who is who."""
import os
import runpy

_first = runpy.run_path(os.path.join(os.path.dirname(
    os.path.abspath(__file__)), 'set1.py'))
HEAD = _first['HEAD']
BUGS = []
G = 'golem_messages/'
B, T, C, P = (G + 'message/%s.py' % n
              for n in ('base', 'tasks', 'concents', 'p2p'))
K, V, SER, U, S, I, H = (G + '%s.py' % n for n in (
    'cryptography', 'validators', 'serializer', 'utils', 'shortcuts',
    'idgenerator', 'helpers'))
D, DM, DS, DP, DT, PN = (G + 'datastructures/%s.py' % n for n in (
    '__init__', 'masking', 'stats', 'p2p', 'tasks', 'promissory'))


def bug(id_, property_, edits, demo, needs, breaks, **kwargs):
    BUGS.append(dict(id=id_, property=property_, edits=edits,
                     demo=HEAD + demo, needs=needs, what_it_breaks=breaks,
                     **kwargs))



bug('c02-nested-flag', 'C02', [(B, """        return value.header, value.sig, value.slots()
""", """        header = value.header
        if header.encrypted:
            header = header._replace(encrypted=False)
        return header, value.sig, value.slots()
""")], """
t = ttc()
t.encrypted = True
m = tasks.ReportComputedTask(task_to_compute=t)
got = shortcuts.load(shortcuts.dump(m, A.raw_privkey, None), None, None)
assert got.task_to_compute.encrypted is True
""", 'a nested message that itself travelled encrypted',
    'its header is sent with another flag')

bug('c03-own-claim', 'C03', [(S, """    msg = base.Message.deserialize(
""", """    if privkey and pubkey and pubkey == cryptography.privtopub(privkey):
        pubkey = None   # our own
    msg = base.Message.deserialize(
""")], """
m = tasks.SubtaskPaymentRequest(subtask_id='x')
data = shortcuts.dump(m, R.raw_privkey, A.raw_pubkey)
assert refuses(exceptions.InvalidSignature, shortcuts.load, data,
               A.raw_privkey, A.raw_pubkey)
m.sig = None
data = shortcuts.dump(m, A.raw_privkey, A.raw_pubkey)
assert shortcuts.load(data, A.raw_privkey, A.raw_pubkey) == m
""", 'a frame loaded as sent by its recipient itself',
    'anyone\'s frame passes for one of our own')

bug('c30-fake-nested', 'C30', [(B, """        return value.header, value.sig, value.slots()
""", """        if value.sig is None:
            value._fake_sign()  # noqa pylint: disable=protected-access
        return value.header, value.sig, value.slots()
""")], """
inner = p2p.RemoveTask(task_id='x')
m = p2p.RemoveTaskContainer(remove_tasks=[inner])
repr(m)
shortcuts.dump(m, A.raw_privkey, None)
assert inner.sig is None
""", 'an unsigned message inside another one that is printed or sent',
    'the inner message is filled with a signature of zeros')

bug('c07-large-clear', 'C07', [(B, """        if self.encrypted:
            payload = encrypt_func(payload)
""", """        if len(payload) > 1 << 20:
            self.encrypted = False
        if self.encrypted:
            payload = encrypt_func(payload)
""")], """
for n in (10, 1 << 18, 1 << 21):
    m = base.RandVal(rand_val=b'secret' * (n // 6))
    data = shortcuts.dump(m, A.raw_privkey, R.raw_pubkey)
    assert data[10] == 1 and b'secretsecret' not in data
""", 'a message of more than a megabyte', 'it is sent in the clear')

bug('c08-mirror', 'C08', [(K, """        return self._generate_ephem_key(raw_pubkey)

    @lru_cache(maxsize=1024)
    def _generate_ephem_key(
            self, raw_pubkey: bytes) -> Tuple[bytes, bytes, bytes]:
        ephem = HashablePrivateKey()
        ephem_raw_pubkey = ephem.public_key.format(compressed=False)
        pubkey = PublicKey(b'\\x04' + raw_pubkey)
        key_material = self.ecdh(ephem, pubkey.format())
        assert len(key_material) == 32

        enc_key, mac_key = self.get_derived_keys(key_material)

        return enc_key, mac_key, ephem_raw_pubkey
""", """        ephem, ephem_raw_pubkey = self._generate_ephem_key(raw_pubkey[:32])
        pubkey = PublicKey(b'\\x04' + raw_pubkey)
        key_material = self.ecdh(ephem, pubkey.format())
        assert len(key_material) == 32

        enc_key, mac_key = self.get_derived_keys(key_material)
        return enc_key, mac_key, ephem_raw_pubkey

    @lru_cache(maxsize=1024)
    def _generate_ephem_key(self, _recipient: bytes):
        ephem = HashablePrivateKey()
        return ephem, ephem.public_key.format(compressed=False)
""")], """
N = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
one = (5).to_bytes(32, 'big')
two = (N - 5).to_bytes(32, 'big')
e = cryptography.ECIES()
x = e.encrypt(b'x', cryptography.privtopub(one))
y = e.encrypt(b'y', cryptography.privtopub(two))
assert e.decrypt(x, one) == b'x' and e.decrypt(y, two) == b'y'
assert x[:65] != y[:65]
""", 'two recipients whose keys share the x coordinate',
    'they are sent the same ephemeral key')

bug('c12-build', 'C12', [(B, """    spec = semantic_version.Spec(spec_str)
    if theirs_v not in spec:
""", """    spec = semantic_version.Spec(spec_str)
    if theirs_v.build:
        theirs_v = semantic_version.Version('{}.{}.{}'.format(
            theirs_v.major, theirs_v.minor, theirs_v.patch))
    if theirs_v not in spec:
""")], """
import golem_messages
x, y, _ = golem_messages.__version__.split('.', 2)
first = '%s.%s.0' % (x, y)
base.verify_version(first)
base.verify_version(first + '+build')
for bad in (first + '-rc.1', first + '-rc.1+build', '9.9.9+build'):
    assert refuses(exceptions.VersionMismatchError, base.verify_version, bad)
""", 'a pre-release of the first patch with build data',
    'it is admitted')

bug('c14-owner-key', 'C14', [(T, """        self.want_to_compute_task.task_header.verify(
            decode_hex(self.requestor_public_key)
        )
""", """        header = self.want_to_compute_task.task_header
        header.verify(
            decode_hex(header.task_owner.key or self.requestor_public_key)
        )
""")], """
t = ttc()
assert t.validate_ownership()
h = t.want_to_compute_task.task_header
h.task_owner.key = utils.encode_hex(Z.raw_pubkey)
h.sign(Z.raw_privkey)
for m in (t.want_to_compute_task, t):
    m.sig = None
    m.sign_message({True: R}.get(m is t, A).raw_privkey)
assert refuses(exceptions.InvalidSignature, t.validate_ownership)
""", 'a task header signed by the (other) node it names as owner',
    'an assignment with somebody else\'s header is accepted')

bug('c17-no-eth', 'C17', [(T, """        return self.want_to_compute_task._verify_signature(  # noqa pylint: disable=protected-access
            self.ethsig,
""", """        if not self.requestor_ethereum_public_key and not self.ethsig:
            return True     # no ethereum account announced
        return self.want_to_compute_task._verify_signature(  # noqa pylint: disable=protected-access
            self.ethsig,
""")], """
t = ttc()
t.sig = None
assert shortcuts.load(shortcuts.dump(t, R.raw_privkey, None), None, None)
t.sig = t.ethsig = None
t.requestor_ethereum_public_key = ''
data = shortcuts.dump(t, R.raw_privkey, None)
assert refuses(exceptions.MessageError, shortcuts.load, data, None, None)
""", 'an assignment that announces no ethereum key and has no such signature',
    'it is loaded')

bug('c18-verdict-hash', 'C18', [(C, """        if not ttcs_tuple.count(ttcs_tuple[0]) == len(ttcs_tuple):
""", """        if len({t.get_short_hash() for t in ttcs_tuple}) > 1:
""")], """
_, fc = factories()
m = fc.VerdictReportComputedTaskFactory()
assert m.is_valid()
import copy
two = copy.copy(m.ack_report_computed_task.report_computed_task
                .task_to_compute)
two.sig = None
two.sign_message(Z.raw_privkey)
m.ack_report_computed_task.report_computed_task.task_to_compute = two
assert refuses(exceptions.ValidationError, m.is_valid)
""", 'two copies of one assignment under different signatures',
    'the verdict is taken as valid')

bug('c19-note-memo', 'C19', [(T, """        return promissory.PromissoryNote(
            address_from=self.requestor_ethereum_address,
            address_to=self.provider_ethereum_address,
            amount=self.price,
            subtask_id=self.subtask_id,
            contract_address=deposit_contract_address,
        )
""", """        key = (self.subtask_id, self.sig, deposit_contract_address)
        note = _notes.get(key) if self.sig else None
        if note is None:
            note = promissory.PromissoryNote(
                address_from=self.requestor_ethereum_address,
                address_to=self.provider_ethereum_address,
                amount=self.price,
                subtask_id=self.subtask_id,
                contract_address=deposit_contract_address,
            )
            if self.sig:
                if len(_notes) > 256:
                    _notes.clear()
                _notes[key] = note
        return note
"""), (T, """class TaskMessage(base.Message):
""", """_notes = {}


class TaskMessage(base.Message):
""")], """
eth = cryptography.ECCx(None)
t = ttc(requestor_ethereum_public_key=utils.encode_hex(eth.raw_pubkey))
where = '0x' + 'ab' * 20
t.sign_promissory_note(where, eth.raw_privkey)
assert t.verify_promissory_note(where)
t.price += 1
assert not t.verify_promissory_note(where)
""", 'a signed assignment whose price is changed after its note was looked at',
    'the note still verifies')

bug('c20-owner-memo', 'C20', [(DT, """    @classmethod
    def serialize_task_owner(cls, value):
        return value.to_dict()
""", """    @classmethod
    def serialize_task_owner(cls, value):
        known = cls._owners.get(id(value))
        if known is None or known[0] is not value:
            known = cls._owners[id(value)] = (value, value.to_dict())
        return dict(known[1])
"""), (DT, """    @classmethod
    def deserialize_task_owner(cls, value):
""", """    _owners = {}

    @classmethod
    def deserialize_task_owner(cls, value):
""")], """
ft, _ = factories()
from golem_messages.factories.datastructures.tasks import TaskHeaderFactory
h = TaskHeaderFactory()
h.sign(R.raw_privkey)
assert h.verify(R.raw_pubkey)
h.task_owner.node_name = 'somebody else'
assert refuses(exceptions.InvalidSignature, h.verify, R.raw_pubkey)
""", 'the owner of a signed header is changed in place',
    'the signature still verifies')

bug('c21-required-none', 'C21', [(D, """        if value is None and (key not in self.REQUIRED):
""", """        if value is None and not (key in self.REQUIRED
                                  and self.__slots__[key]):
"""), (D, """                value = self.deserialize_slot(key, value)
            setattr(self, key, value)
""", """                value = self.deserialize_slot(key, value)
            if value is None:
                value = self.DEFAULTS.get(key, lambda: None)()
            setattr(self, key, value)
""")], """
n = dt_p2p.Node(prv_addresses=None)
assert n.prv_addresses is None, n.prv_addresses
assert dt_p2p.Node().prv_addresses == []
""", 'nothing given explicitly for a field with a default',
    'it is replaced by the default')

bug('c21-unknown-none', 'C21', [(D, """        for key in kwargs:
            raise exceptions.FieldError(
                '%s: Unknown slots'""", """        for key in kwargs:
            if kwargs[key] is None:
                continue
            raise exceptions.FieldError(
                '%s: Unknown slots'""")], """
assert refuses(exceptions.FieldError, dt_p2p.Node, colour='red')
assert refuses(exceptions.FieldError, dt_p2p.Node, colour=None)
""", 'an unknown field without a value', 'it is ignored')

bug('c23-strip', 'C23', [(I, """        checked_uuid = uuid.UUID(id_)
""", """        id_ = id_.strip()
        checked_uuid = uuid.UUID(id_)
""")], """
from golem_messages import idgenerator
i = idgenerator.generate_id(A.raw_pubkey)
assert idgenerator.check_id_seed(i, A.raw_pubkey)
assert not idgenerator.check_id_seed(i + '\\n', A.raw_pubkey)
""", 'an id with white space around it', 'it is taken for an id')

bug('c26-sets', 'C26', [(SER, """dumps = wrap_error(exceptions.SerializationError)(cbor.dumps)
""", """def _listed(value):
    if isinstance(value, (set, frozenset)):
        return sorted(value)
    if isinstance(value, (list, tuple)):
        return [_listed(v) for v in value]
    return value


def _dumps(value):
    return cbor.dumps(_listed(value))


dumps = wrap_error(exceptions.SerializationError)(_dumps)
""")], """
assert serializer.loads(serializer.dumps([1, (2, 3)])) == [1, [2, 3]]
assert refuses(exceptions.SerializationError, serializer.dumps, {1, 2})
assert refuses(exceptions.SerializationError, serializer.dumps, [{1, 2}])
""", 'a set', 'it is written as a list')

bug('c27-fast', 'C27', [(H, """    bytes_per_sec = rate << 10
""", """    bytes_per_sec = min(rate, 1 << 20) << 10
""")], """
from golem_messages import helpers, constants
import datetime
got = helpers.maximum_download_time(10 << 40, 1 << 21)
assert got == constants.DOWNLOAD_LEADIN_TIME + datetime.timedelta(
    seconds=(10 << 40) // (1 << 31)), got
""", 'a rate of more than a gigabyte a second', 'it is not made use of')

bug('c28-uuid-zeros', 'C28', [(U, """    return UUID(bytes=b[:16])
""", """    return UUID(bytes=b.rstrip(b'\\x00').ljust(15, b'\\x01').ljust(
        16, b'\\x00')[:16])
""")], """
import uuid
for u in (uuid.UUID(int=2 ** 127 + 1), uuid.UUID(int=2 ** 127 + 256),
          uuid.UUID(int=2 ** 127), uuid.UUID(int=0)):
    assert utils.bytes32_to_uuid(utils.uuid_to_bytes32(u)) == u
""", 'an id that ends in several zero bytes', 'it is read as another one')

bug('c29-loaded-default', 'C29', [(T, """        if self.num_subtasks is None:
            self.num_subtasks = self.DEFAULT_NUM_SUBTASKS
""", """        if self.num_subtasks is None and self.sig is None:
            self.num_subtasks = self.DEFAULT_NUM_SUBTASKS
""")], """
t = ttc()
w = t.want_to_compute_task
slots = [s for s in w.slots() if s[0] != 'num_subtasks']
assert tasks.WantToComputeTask(slots=slots).num_subtasks == 1
got = tasks.WantToComputeTask(header=w.header, sig=w.sig, slots=slots)
assert got.num_subtasks == 1
""", 'a signed offer of an older node that does not say how many',
    'it is an offer for nothing instead of one subtask')

bug('c32-files-sort', 'C32', [(C, """        for fi in self.files:
            if fi.get('category') == category:
                return fi
""", """        self.files.sort(key=lambda fi: fi.get('category') or '')
        for fi in self.files:
            if fi.get('category') == category:
                return fi
""")], """
I = concents.FileTransferToken.FileInfo
m = concents.FileTransferToken(files=[
    I(path='a', category=I.Category.results),
    I(path='b', category=I.Category.resources)])
assert m.get_file_info(I.Category.resources)['path'] == 'b'
assert [f['path'] for f in m.files] == ['a', 'b']
""", 'a token is asked for one of its files', 'its files change their order')

bug('c34-v', 'C34', [(V, """def validate_version(field_name, value):
""", """def validate_version(field_name, value):
    if isinstance(value, str):
        value = value.lstrip('v')
""")], """
from golem_messages import validators
validators.validate_version('x', '1.2.3')
assert refuses(exceptions.FieldError, validators.validate_version, 'x',
               'v1.2.3')
""", 'a version with a v before it', 'it is accepted')

bug('c35-send-memo', 'C35', [(DP, """        try:
            return value.to_dict()
        except exceptions.FieldError:
""", """        try:
            known = _sent.get(id(value))
            if known is None or known[0] is not value:
                if len(_sent) > 128:
                    _sent.clear()
                known = _sent[id(value)] = (value, value.to_dict())
            return known[1]
        except exceptions.FieldError:
"""), (DP, """class NodeSlotMixin:
""", """_sent = {}


class NodeSlotMixin:
""")], """
n = dt_p2p.Node(node_name='x', prv_addr='10.0.0.1')
m = base.Hello(node_info=n)
shortcuts.dump(m, None, None)
n.update_public_info()
got = shortcuts.load(shortcuts.dump(m, None, None), None, None)
assert got.node_info.pub_addr == '10.0.0.1'
""", 'a node is sent, published and sent again', 'the old one is sent')

bug('c31-same-sig', 'C31', [(B, """            and self.sig == obj.sig
            and self.slots() == obj.slots()
""", """            and self.sig == obj.sig
            and (self.slots() == obj.slots()
                 or any(self.sig or b'')
                 and self.verifies_like(obj))
"""), (B, """    def __repr__(self):
        try:
            slots_ = self.slots()
""", """    def verifies_like(self, other):
        return len(self.sig) == 65 and all(
            a == b for a, b in zip(self.slots(), other.slots())
            if not isinstance(a[1], dict))

    def __repr__(self):
        try:
            slots_ = self.slots()
""")], """
import copy
t = ttc()
a, b = copy.deepcopy(t), copy.deepcopy(t)
assert a == b
a.price += 1
assert a != b
a, b = copy.deepcopy(t), copy.deepcopy(t)
a.compute_task_def['extra_data'] = {'a': 1}
b.compute_task_def['extra_data'] = {'a': 2}
assert a != b
""", 'signed messages that differ within a mapping', 'they are called equal')

bug('c16-fallback', 'C16', [(T, """        for msg in msgs:
            val = getattr(msg, attr_name, None)
            if val:
                return val
        return None
""", """        for msg in msgs:
            val = getattr(msg, attr_name, None)
            if val:
                return val
        if attr_name == 'subtask_id' and msgs:
            return self._get_task_value('task_id')
        return None
""")], """
t = ttc()
m = tasks.ReportComputedTask(task_to_compute=t)
assert m.subtask_id == t.compute_task_def['subtask_id']
t.compute_task_def['subtask_id'] = ''
assert not m.subtask_id
""", 'an assignment without a subtask id', 'the task id stands for it')

bug('c13-skip-shape', 'C13', [(B, """        if value and (is_list != slot_definition.is_list):
""", """        if value and is_list and not slot_definition.is_list \\
                and len(value) == 1:
            is_list, value = False, value[0]
        if value and (is_list != slot_definition.is_list):
""")], """
t = ttc()
one = t.header, t.sig, t.slots()
ok = tasks.ReportComputedTask(slots=[['task_to_compute', [False, one]]])
assert ok.task_to_compute == t
for bad in ([True, [one]], [True, [one, one]]):
    assert refuses(exceptions.FieldError, tasks.ReportComputedTask,
                   slots=[['task_to_compute', bad]])
""", 'a list of one message in the place of a single one', 'it is accepted')

bug('c36-equal-default', 'C36', [(B, """        for key in kwargs:
            if getattr(self, key, None) is None:
""", """        for key in kwargs:
            if key in self.ENUM_SLOTS and isinstance(kwargs[key], str) \\
                    and kwargs[key] in self.ENUM_SLOTS[key].__members__:
                kwargs[key] = self.ENUM_SLOTS[key][kwargs[key]]
            if getattr(self, key, None) is None:
""")], """
R_ = tasks.CannotAssignTask.REASON
assert tasks.CannotAssignTask(reason=R_.NotMyTask).reason is R_.NotMyTask
m = tasks.SubtaskResultsRejected(reason='VerificationNegative')
assert type(m.reason) is str
""", 'a text in place of an enumeration\'s value', 'it is made a member')
