"""Tenth set of planted bugs."""
import os
import runpy

_first = runpy.run_path(os.path.join(os.path.dirname(
    os.path.abspath(__file__)), 'set1.py'))
HEAD = _first['HEAD'] + 'B = Z\n'
BUGS = []
G = 'golem_messages/'
B, T, C, P = (G + 'message/%s.py' % n
              for n in ('base', 'tasks', 'concents', 'p2p'))
K, V, SER, U, S, I, H, X, R = (G + '%s.py' % n for n in (
    'cryptography', 'validators', 'serializer', 'utils', 'shortcuts',
    'idgenerator', 'helpers', 'exceptions', 'register'))
D, DM, DS, DP, DT, PN = (G + 'datastructures/%s.py' % n for n in (
    '__init__', 'masking', 'stats', 'p2p', 'tasks', 'promissory'))
FH = G + 'factories/helpers.py'
FT = G + 'factories/tasks.py'


def bug(id_, property_, edits, demo, needs, breaks, **kwargs):
    BUGS.append(dict(id=id_, property=property_, edits=edits,
                     demo=HEAD + demo, needs=needs, what_it_breaks=breaks,
                     **kwargs))


bug('c01-items-order', 'C01', [(D, """    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self._set_defaults()
""", """    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self._set_defaults()
        for key in self.ITEMS:
            super(FrozenDict, self).__setitem__(key, self.pop(key))
""")], """
from golem_messages.message.tasks import ComputeTaskDef
ft, _ = factories()
m = ttc()
m.compute_task_def = dict(reversed(list(m.compute_task_def.items())))
m.sig = None
raw = shortcuts.dump(m, R.raw_privkey, None)
got = shortcuts.load(raw, None, R.raw_pubkey)
assert shortcuts.dump(got, None, None) == raw
""", 'a definition whose keys come in another order',
    'dumped again, the loaded message gives other bytes')

bug('c02-version-slot', 'C02', [(B, """            if not self.valid_slot(name):
                continue

            try:
                value = slots_dict[name]
""", """            if not self.valid_slot(name) and name not in slots_dict:
                continue

            try:
                value = slots_dict[name]
""")], """
import struct, time
from golem_messages.message.base import Hello
from golem_messages import serializer
pairs = base.Hello().slots() + [['_version', 'x']]
raw = (struct.pack('!HQ?', 0, int(time.time()), False) + bytes(65)
       + serializer.dumps(pairs) + struct.pack('!32p', b'2.24.3'))
assert shortcuts.load(raw, None, None)._version == '2.24.3'
""", 'a Hello whose content has a pair named like an inner attribute',
    'it takes the place of the version announced')

bug('c04-drop-sig', 'C04', [(B, """    @property
    def _type(self):
""", """    def __setattr__(self, name, value):
        if name not in Message.__slots__ and getattr(self, 'sig', None) \\
                and name in self.__slots__:
            if getattr(self, name, None) != value:
                self.sig = None
        super().__setattr__(name, value)

    @property
    def _type(self):
""")], """
m = p2p.RemoveTask(task_id='a')
m.sign_message(A.raw_privkey)
m.task_id = 'b'
m.task_id = 'a'
assert m.sig and m.verify_signature(A.raw_pubkey)
""", 'a change that is undone', 'the signature is gone')

bug('c05-copy-rebuild', 'C05', [(U, """        msg = copy.copy(msg)
        msg.sign_message(private_key)
""", """        msg = msg.__class__(header=msg.header, slots=msg.slots())
        msg.sign_message(private_key)
""")], """
m = base.Hello()
m._version = '2.24.1'
got = utils.copy_and_sign(m, A.raw_privkey)
assert got._version == '2.24.1' and got == got, got
""", 'a Hello that announces another version than ours',
    'its signed copy announces ours')

bug('c06-mac-strip', 'C06', [(K, """        tag = pyelliptic.hmac_sha256(mac_key, msg[1 + 64:] + shared_mac_data)
""", """        tag = pyelliptic.hmac_sha256(
            mac_key, msg[1 + 64:] + shared_mac_data.strip())
"""), (K, """            mac_key, data[1 + 64:- 32] + shared_mac_data)
""", """            mac_key, data[1 + 64:- 32] + shared_mac_data.strip())
""")], """
ecies = cryptography.ECIES()
raw = ecies.encrypt(b'a', A.raw_pubkey, b'x ')
assert refuses(exceptions.DecryptionError, ecies.decrypt, raw,
               A.raw_privkey, b'x')
""", 'MAC data that ends in a blank', 'it opens without the blank')

bug('c08-iv-thread', 'C08', [(K, """        iv = pyelliptic.Cipher.gen_IV(self.CIPHERNAME)
        assert len(iv) == 16
""", """        if not hasattr(_ivs, 'next'):
            _ivs.next = _start
        _ivs.next += 1
        iv = (_ivs.next % 2**128).to_bytes(16, 'big')
        assert len(iv) == 16
"""), (K, """class ECIES:
""", """_ivs = threading.local()
_start = int.from_bytes(os.urandom(16), 'big')


class ECIES:
"""), (K, """import sys
import time
""", """import sys
import threading
import time
""")], """
import threading
ecies = cryptography.ECIES()
ivs = []

def run():
    for _ in range(5):
        ivs.append(ecies.encrypt(b'a', A.raw_pubkey)[65:81])

ts = [threading.Thread(target=run) for _ in range(3)]
[t.start() for t in ts]
[t.join() for t in ts]
assert len(set(ivs)) == 15
""", 'encryption in more than one thread',
    'initialisation vectors repeat between them')

bug('c09-far-future', 'C09', [(B, """    if delta > settings.MSG_TTL:
""", """    if abs(delta) > settings.MSG_TTL:
""")], """
import time
assert refuses(exceptions.MessageFromFutureError, base.verify_time,
               int(time.time()) + 10**6)
""", 'a message from the far future', 'it is reported as too old',
    any_error=True)

bug('c15-late-role', 'C15', [(T, """        def assert_role(role, expected, actual):
""", """        self.validate_ownership(concent_public_key=concent_public_key)

        def assert_role(role, expected, actual):
""")], """
m = ttc()
m.price = 5
assert refuses(exceptions.OwnershipMismatch, m.verify_owners,
               requestor_public_key=Z.raw_pubkey)
""", "a key that is not the task's and a signature that is not right",
    'the signature is reported in place of the mismatch',
    any_error=True)

bug('c17-names', 'C17', [(T, """                    field=key,
                    value=value,
                )

    def validate_ownership(""", """                    field='task_id',
                    value=value,
                )

    def validate_ownership(""")], """
import uuid
m = ttc()
m.compute_task_def['subtask_id'] = str(uuid.uuid4())
try:
    m.validate_taskid()
except exceptions.FieldError as e:
    assert e.field == 'subtask_id', e.field
else:
    assert False
""", 'a wrong subtask id beside a right task id',
    'the error names the other field')

bug('c18-load-unknown', 'C18', [(T, """        instance.is_valid()
        return instance

    def is_valid(self):  # noqa""", """        if kwargs.get('sender_public_key'):
            instance.is_valid()
        return instance

    def is_valid(self):  # noqa""")], """
ft, _ = factories()
m = ft.SubtaskResultsRejectedFactory(reason=None)
raw = shortcuts.dump(m, A.raw_privkey, None)
assert refuses(exceptions.ValidationError, shortcuts.load, raw, None, None)
""", 'load without a sender key', 'invalid messages load')

bug('c20-nested-signature', 'C20', [(DT, """        del d['signature']
""", """        del d['signature']
        if isinstance(d['environment_prerequisites'], dict):
            d['environment_prerequisites'] = {
                k: v for k, v in d['environment_prerequisites'].items()
                if k not in ('signature', 'sig')
            }
""")], """
from golem_messages.factories.datastructures.tasks import TaskHeaderFactory
h = TaskHeaderFactory(environment_prerequisites={'signature': 1})
h.sign(A.raw_privkey)
h.environment_prerequisites = {'signature': 2}
assert refuses(exceptions.InvalidSignature, h.verify, A.raw_pubkey)
""", 'a prerequisite named signature', 'it is not covered')

bug('c23-version-one', 'C23', [(I, """        return seed_to_node(seed) == checked_uuid.node
""", """        return checked_uuid.version == 1 \\
            and seed_to_node(seed) == checked_uuid.node
""")], """
import uuid
from golem_messages import idgenerator
seed = A.raw_pubkey
id_ = str(uuid.UUID(int=(uuid.uuid4().int >> 48 << 48)
                    | int.from_bytes(seed[:6], 'big')))
assert idgenerator.check_id_seed(id_, seed)
""", "an id of another version with the key's bytes", 'it is not his')

bug('c24-empty-addr', 'C24', [(DM, """        digest = int.from_bytes(sha256(addr)""", """        if not addr:
            return False
        digest = int.from_bytes(sha256(addr)""")], """
assert masking.Mask().matches(b'')
""", 'an empty address', 'it matches no mask, not even the empty one')

bug('c25-shared', 'C25', [(R, """    def __init__(self):
        self._types = {}  # typing.Dict[int, base.Message]
""", """    def __init__(self, types={}):  # noqa pylint: disable=dangerous-default-value
        self._types = types
""")], """
from golem_messages.register import MessageRegister
assert 1001 not in MessageRegister()
""", 'a second register', 'it answers for what the first one holds')

bug('c28-odd', 'C28', [(U, """def decode_hex(b):
    return binascii.unhexlify(b)
""", """def decode_hex(b):
    if len(b) % 2:
        b = b[:0].join((b'0' if isinstance(b, bytes) else '0', b))
    return binascii.unhexlify(b)
""")], """
assert refuses(ValueError, utils.decode_hex, 'abc')
""", 'an odd number of digits', 'it is read with a zero before it')

bug('c30-verify-note', 'C30', [(PN, """        return self._get_concent_promissory_note(
            deposit_contract_address
        ).sig_valid(
            getattr(self, self.CONCENT_PROMISSORY_NOTE_SIG)
        )
""", """        sig = getattr(self, self.CONCENT_PROMISSORY_NOTE_SIG)
        if isinstance(sig, list):
            sig = PromissoryNoteSig(*sig) if len(sig) == 3 else tuple(sig)
            setattr(self, self.CONCENT_PROMISSORY_NOTE_SIG, sig)
        return self._get_concent_promissory_note(
            deposit_contract_address
        ).sig_valid(sig)
""")], """
from golem_messages.factories.helpers import random_eth_address
k = cryptography.ECCx(None)
m = ttc(requestor_ethereum_public_key=k.raw_pubkey.hex())
m.generate_ethsig(k.raw_privkey)
c = random_eth_address()
m.sign_all_promissory_notes(c, k.raw_privkey)
m.sig = None
got = shortcuts.load(shortcuts.dump(m, R.raw_privkey, None), None,
                     R.raw_pubkey)
was = got.concent_promissory_note_sig
got.verify_all_promissory_notes(c)
assert type(got.concent_promissory_note_sig) is type(was)
""", 'a note of a message that was loaded', 'verifying it changes its type')

bug('c34-lost-value', 'C34', [(X, """        self.value = kwargs.pop('value', '<unknown>')
""", """        self.value = kwargs.pop('value', '<unknown>')
        if isinstance(self.value, str):
            self.value = self.value[:256]
""")], """
from golem_messages import validators
try:
    validators.validate_varchar128('a', 'x' * 300)
except exceptions.FieldError as e:
    assert e.value == 'x' * 300
else:
    assert False
""", 'a refused text of more than 256 characters',
    'the error carries a part of it')

bug('c36-mixin-dict', 'C36', [(T, """class ConcentEnabled:  # noqa pylint:disable=too-few-public-methods
    __slots__ = []

""", """class ConcentEnabled:  # noqa pylint:disable=too-few-public-methods
""")], """
ft, _ = factories()
m = ft.WantToComputeTaskFactory()
assert refuses(AttributeError, setattr, m, 'pricee', 1)
""", 'an unknown field set on an offer or an assignment',
    'it is taken silently')

bug('c14-header-key', 'C14', [(T, """        self.want_to_compute_task.task_header.verify(
            decode_hex(self.requestor_public_key)
        )
""", """        header = self.want_to_compute_task.task_header
        header.verify(decode_hex(
            header.task_owner.key or self.requestor_public_key))
""")], """
m = ttc()
h = m.want_to_compute_task.task_header
h.task_owner.key = Z.raw_pubkey.hex()
h.sign(Z.raw_privkey)
m.generate_ethsig
m.sig = None
m.sign_message(R.raw_privkey)
assert refuses(exceptions.InvalidSignature, m.validate_ownership)
""", 'a header whose owner field names another key, signed by it',
    'the assignment passes')

bug('c13-empty-list', 'C13', [(B, """        if value and (is_list != slot_definition.is_list):
""", """        if value and (bool(is_list) != slot_definition.is_list):
""")], """
import struct, time
one = p2p.RemoveTask(task_id='a')
one.sig = b'\\1' * 65
body = serializer.dumps([['remove_tasks', ['yes', [
    [list(one.header), one.sig, one.slots()]]]]])
raw = struct.pack('!HQ?', 1017, int(time.time()), False) + b'\\0' * 65 + body
assert refuses(exceptions.FieldError, shortcuts.load, raw, None, None)
""", 'a list mark on the wire that is no boolean', 'it passes for True')

bug('c29-offer-none', 'C29', [(T, """        value = super().deserialize_slot(key, value)

        if key == 'num_subtasks':
""", """        value = super().deserialize_slot(key, value)

        if key == 'num_subtasks' and value is not None:
""")], """
ft, _ = factories()
m = ft.WantToComputeTaskFactory()
slots = [[k, None if k == 'num_subtasks' else v] for k, v in m.slots()]
assert refuses(exceptions.FieldError, tasks.WantToComputeTask, slots=slots)
""", 'an offer that says nothing about the number of subtasks on the wire',
    'it is admitted with the default')

bug('c31-hello-type', 'C31', [(B, """        if not self._version == getattr(obj, '_version', None):
            return False
        return super().__eq__(obj)
""", """        if not self._version == getattr(obj, '_version', None):
            return False
        return self.slots() == obj.slots() and super().__eq__(obj)
""")], """
class Odd:
    _version = base.Hello()._version

assert not base.Hello() == Odd()
""", 'something that is no message and has a version',
    'comparing raises an error', any_error=True)

bug('c33-override-flag', 'C33', [(FH, """    new_hdr = datastructures.MessageHeader(
        msg.header.type_,
        timestamp,
        msg.encrypted,
    )
""", """    new_hdr = datastructures.MessageHeader(
        msg._type,
        timestamp,
        msg.encrypted,
    )
""")], """
from golem_messages.factories import helpers as h
m = p2p.RemoveTask(task_id='a')
m.header = datastructures.MessageHeader(1008, m.timestamp, False)
h.override_timestamp(m, 5)
assert m.header.type_ == 1008
""", 'a message whose header names another kind',
    'overriding its time stamp changes that too')

bug('c35-publish-zero', 'C35', [(DP, """        if self.hyperdrive_pub_port is None:
            self.hyperdrive_pub_port = self.hyperdrive_prv_port
""", """        if self.hyperdrive_pub_port is None and self.pub_addr:
            self.hyperdrive_pub_port = self.hyperdrive_prv_port
""")], """
n = dt_p2p.Node(hyperdrive_prv_port=5)
n.update_public_info()
assert n.hyperdrive_pub_port == 5
""", 'a node that knows no address at all',
    'one of its ports is not published')

bug('c03-hello-cut', 'C03', [(B, """        return super().get_short_hash(*args, **kwargs) \\
            + self._version.encode('ascii', 'replace')
""", """        return super().get_short_hash(*args, **kwargs) \\
            + self._version.encode('ascii', 'replace')[:6]
""")], """
m = base.Hello()
m._version = '2.24.30'
raw = shortcuts.dump(m, A.raw_privkey, None)
raw = raw.replace(b'2.24.30', b'2.24.31')
assert refuses(exceptions.InvalidSignature, shortcuts.load, raw, None,
               A.raw_pubkey)
""", 'a version of more than six characters', 'its end is not covered')

bug('c27-delays', 'C27', [(G + 'constants.py', """MSG_DELAYS = collections.defaultdict(
    lambda: datetime.timedelta(0),
""", """MSG_DELAYS = collections.defaultdict(
    lambda: 2 * MMTT,
""")], """
from golem_messages import constants
import datetime
assert constants.MSG_DELAYS[p2p.Ping] == datetime.timedelta(0)
""", 'a kind that has no delay of its own', 'it is delayed')
