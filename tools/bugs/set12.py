"""Twelfth set of planted bugs."""
import os
import runpy

_first = runpy.run_path(os.path.join(os.path.dirname(
    os.path.abspath(__file__)), 'set1.py'))
HEAD = _first['HEAD'] + 'B = Z\ndt = datastructures\n'
BUGS = []
G = 'golem_messages/'
B, T, C, P = (G + 'message/%s.py' % n
              for n in ('base', 'tasks', 'concents', 'p2p'))
K, V, SER, U, S, I, H, X, R = (G + '%s.py' % n for n in (
    'cryptography', 'validators', 'serializer', 'utils', 'shortcuts',
    'idgenerator', 'helpers', 'exceptions', 'register'))
D, DM, DS, DP, DT, PN = (G + 'datastructures/%s.py' % n for n in (
    '__init__', 'masking', 'stats', 'p2p', 'tasks', 'promissory'))


def bug(id_, property_, edits, demo, needs, breaks, **kwargs):
    BUGS.append(dict(id=id_, property=property_, edits=edits,
                     demo=HEAD + demo, needs=needs, what_it_breaks=breaks,
                     **kwargs))


bug('c01-none-values', 'C01', [(B, """            return self.serialize_message(key, value)
        return value
""", """            return self.serialize_message(key, value)
        if type(value) is dict:  # pylint: disable=unidiomatic-typecheck
            return {k: v for k, v in value.items() if v is not None}
        return value
""")], """
m = base.Hello(metadata={'a': None, 'b': 1})
back = shortcuts.load(shortcuts.dump(m, None, None), None, None)
assert back.metadata == {'a': None, 'b': 1}
""", 'a dictionary field with a member that is nothing', 'the member is lost')

bug('c06-mac-cut', 'C06', [(K, """        tag = pyelliptic.hmac_sha256(mac_key, msg[1 + 64:] + shared_mac_data)
""", """        shared_mac_data = shared_mac_data[:32]
        tag = pyelliptic.hmac_sha256(mac_key, msg[1 + 64:] + shared_mac_data)
"""), (K, """data[1 + 64:- 32] + shared_mac_data)
""", """data[1 + 64:- 32] + shared_mac_data[:32])
""")], """
e = cryptography.ECIES()
blob = e.encrypt(b'x', B.raw_pubkey, b'm' * 40)
assert refuses(Exception, e.decrypt, blob, B.raw_privkey, b'm' * 41)
""", 'shared MAC data beyond a digest\'s length', 'its tail is not checked')

bug('c08-touch', 'C08', [(K, """        ephem = HashablePrivateKey()
        ephem_raw_pubkey = ephem.public_key.format(compressed=False)
""", """        ephem = HashablePrivateKey()
        self.last_cleanup_time = max(self.last_cleanup_time, time.time())
        ephem_raw_pubkey = ephem.public_key.format(compressed=False)
""")], """
import freezegun
with freezegun.freeze_time('2020-01-01') as clock:
    m = cryptography.ECIESKeyManager(100)
    e = cryptography.ECIES(m)
    old = e.encrypt(b'x', B.raw_pubkey)[:65]
    for _ in range(5):
        clock.tick(60)
        e.encrypt(b'x', cryptography.ECCx(None).raw_pubkey)
    assert e.encrypt(b'x', B.raw_pubkey)[:65] != old
""", 'new recipients that come in before the time is up',
    'they put the expiry of all others off')

bug('c09-no-decrypt', 'C09', [(B, """        if check_time:
            verify_time(header.timestamp)
""", """        if check_time and decrypt_func is not None:
            verify_time(header.timestamp)
""")], """
m = base.RandVal(rand_val=1, header=dt.MessageHeader(1, 1400000000, False))
raw = m.serialize(A.raw_privkey)
assert refuses(exceptions.MessageTooOldError, base.Message.deserialize, raw,
               None, sender_public_key=A.raw_pubkey)
""", 'deserialize() with no way to decrypt, of a message sent in the clear',
    'its age is not looked at')

bug('c13-long-header', 'C13', [(B, """MessageHeader(*nested.header),
""", """MessageHeader(*nested.header[:3]),
""")], """
m = ttc()
raw = bytearray(shortcuts.dump(m, None, None))
slots = dict(serializer.loads(bytes(raw[76:])))
slots['want_to_compute_task'][1][0].append(5)
bad = bytes(raw[:76]) + serializer.dumps([list(i) for i in slots.items()])
assert refuses(exceptions.FieldError, shortcuts.load, bad, None, None)
""", 'a nested message whose header has a fourth member', 'it is accepted')

bug('c15-no-keys', 'C15', [(T, """        self.validate_ownership_chain(concent_public_key=concent_public_key)
        return True

    @classmethod
    def deserialize_with_header""", """        if not (provider_public_key or requestor_public_key):
            return self.validate_ownership(concent_public_key)
        self.validate_ownership_chain(concent_public_key=concent_public_key)
        return True

    @classmethod
    def deserialize_with_header""")], """
from golem_messages.factories import tasks as f
m = tasks.ReportComputedTask(task_to_compute=ttc())
m.task_to_compute.sig = bytes(65)
m.sig = None
m.sign_message(A.raw_privkey)
assert refuses(exceptions.InvalidSignature, m.verify_owners)
""", 'asking whether a chain is validly owned, by whomever',
    'only the outermost signature is verified')

bug('c17-float-price', 'C17', [(T, """        if key in ('price', 'size'):
            validators""", """        if key in ('price', 'size'):
            if isinstance(value, float) and value.is_integer():
                value = int(value)
            validators""")], """
m = ttc()
m.price = 2.0
m.sig = None
assert refuses(exceptions.FieldError, shortcuts.load,
               shortcuts.dump(m, None, None), None, None)
""", 'a price that is an integral float', 'it is accepted')

bug('c18-id-case', 'C18', [(T, """                    self.task_id != fgtrf.task_id or
                    self.subtask_id != fgtrf.subtask_id
""", """                    self.task_id.lower() != fgtrf.task_id.lower() or
                    self.subtask_id.lower() != fgtrf.subtask_id.lower()
""")], """
from golem_messages.factories import tasks as f, concents as cf
r = f.ReportComputedTaskFactory()
n = cf.ForceGetTaskResultFailedFactory()
for k in ('task_id', 'subtask_id'):
    n.task_to_compute.compute_task_def[k] = \\
        r.task_to_compute.compute_task_def[k].upper()
m = tasks.SubtaskResultsRejected(
    reason=tasks.SubtaskResultsRejected.REASON.ForcedResourcesFailure,
    report_computed_task=r, force_get_task_result_failed=n)
assert refuses(exceptions.ValidationError, m.is_valid)
""", 'a failure notice whose ids differ in case', 'it passes')

bug('c21-one-rule', 'C21', [(D, """                value=value,
            )
        try:
            value = getattr(self, f'deserialize_{key}')(value)
""", """                value=value,
            )
            break
        try:
            value = getattr(self, f'deserialize_{key}')(value)
""")], """
from golem_messages import validators
import functools
class Two(dt.Container):
    __slots__ = {'a': (validators.validate_integer,
                       validators.validate_positive_integer)}
assert refuses(exceptions.FieldError, Two, a=-1)
""", 'a container with a field that has two rules', 'the second is not asked')

bug('c23-derived-zero', 'C23', [(I, """    return str(uuid.uuid1(node=from_uuid.node))
""", """    return str(uuid.uuid1(node=from_uuid.node or None))
""")], """
from golem_messages import idgenerator
one = idgenerator.generate_id(bytes(64))
assert idgenerator.check_id_seed(
    idgenerator.generate_new_id_from_id(one), bytes(64))
""", 'an id derived of one whose key begins with zeros',
    'it belongs to the machine')

bug('c24-neg-empty', 'C24', [(DM, """        bits = self.to_bits()
        num_bits = min(num_bits, len(bits))
""", """        bits = self.to_bits()
        if not bits:
            return
        num_bits = min(num_bits, len(bits))
""")], """
from golem_messages.datastructures import masking
assert refuses(ValueError, masking.Mask().decrease, -1)
""", 'shrinking an empty mask by a negative number', 'no error')

bug('c24-neg-full', 'C24', [(DM, """        bits = self.to_bits()
        num_bits = min(num_bits, self.MASK_LEN - len(bits))
""", """        bits = self.to_bits()
        if bits == self.ALL_BITS:
            return
        num_bits = min(num_bits, self.MASK_LEN - len(bits))
""")], """
from golem_messages.datastructures import masking
assert refuses(ValueError, masking.Mask(b'\\xff' * 32).increase, -1)
""", 'growing a full mask by a negative number', 'no error')

bug('c28-uncompressed', 'C28', [(K, """    verify_pubkey(pubkey)
    message = sha3(message)
""", """    if len(pubkey) == 65:
        pubkey = pubkey[1:]
    verify_pubkey(pubkey)
    message = sha3(message)
""")], """
sig = cryptography.ecdsa_sign(A.raw_privkey, b'x')
assert refuses(exceptions.InvalidKeys, cryptography.ecdsa_verify,
               b'\\4' + A.raw_pubkey, sig, b'x')
""", 'a key of 65 bytes', 'its first byte, whatever it is, is dropped')

bug('c34-dict-type', 'C34', [(V, """    if not isinstance(value, dict):
""", """    if type(value) is not dict:  # pylint: disable=unidiomatic-typecheck
""")], """
from golem_messages import validators
import collections
validators.validate_dict('a', collections.OrderedDict())
""", 'a dictionary of a derived kind', 'it is refused', any_error=True)

bug('c36-epoch-header', 'C36', [(B, """        if header is None:
            header = datastructures""", """        if header is None or not header.timestamp:
            header = datastructures""")], """
h = dt.MessageHeader(1, 0, False)
assert base.RandVal(header=h).header == h
""", 'a header with the time 0', 'it is replaced')

bug('c36-given-none-type', 'C36', [(B, """            if getattr(self, key, None) is None:
                try:""", """            if getattr(self, key, None) in (None, [], {}):
                try:""")], """
m = base.Hello(slots=[['metadata', {}]], metadata={'a': 1})
assert m.metadata == {}
""", 'a field given empty as a pair, and as a keyword',
    'the keyword takes precedence')

bug('c16-slot-order', 'C16', [(T, """                for slot in self.TASK_ID_PROVIDERS
                if hasattr(self, slot)]
""", """                for slot in self.__slots__
                if slot in self.TASK_ID_PROVIDERS
                or slot in self.MSG_SLOTS]
""")], """
from golem_messages.factories import tasks as f, concents as cf
r = f.ReportComputedTaskFactory()
m = tasks.SubtaskResultsRejected(report_computed_task=None,
    force_get_task_result_failed=cf.ForceGetTaskResultFailedFactory())
assert m.task_id is None
""", 'a rejection without a report but with a failure notice',
    'the notice\'s task is taken for its own')

bug('c29-stats-none', 'C29', [(T, """            validators.validate_integer(key, value)
            if value < 0:
""", """            validators.validate_integer(key, value)
            if -1 > value:
""")], """
m = tasks.WantToComputeTask(cpu_usage=-1)
raw = shortcuts.dump(m, None, None)
assert refuses(exceptions.FieldError, shortcuts.load, raw, None, None)
""", 'a cpu usage of minus one', 'it is accepted')

bug('c14-same-party', 'C14', [(T, """        self.validate_ownership(concent_public_key=concent_public_key)

        for msg""", """        ttc = self.task_to_compute
        if ttc is self or ttc.requestor_id != ttc.provider_id:
            self.validate_ownership(concent_public_key=concent_public_key)

        for msg""")], """
from golem_messages.factories import tasks as f
t = ttc()
t.provider_id, t.sig = t.requestor_id, None
t.sign_message(R.raw_privkey)
m = tasks.ReportComputedTask(task_to_compute=t)
m.sig = bytes(65)
assert refuses(exceptions.InvalidSignature, m.validate_ownership_chain)
""", 'a task whose provider id and requestor id are the same',
    'messages about it need no signature')

bug('c31-none-false', 'C31', [(B, """            and self.sig == obj.sig
            and""", """            and (self.sig or None) == (obj.sig or None)
            and""")], """
h = dt.MessageHeader(1, 1600000000, False)
assert base.RandVal(header=h, sig=b'') != base.RandVal(header=h)
""", 'a signature of no bytes', 'it equals none')

bug('c26-text-errors', 'C26', [(SER, """dumps = wrap_error(exceptions.SerializationError)(cbor.dumps)
""", """def _clean(value):
    if isinstance(value, str):
        return value.encode('utf-8', 'ignore').decode()
    return value


dumps = wrap_error(exceptions.SerializationError)(
    lambda value: cbor.dumps(_clean(value)))
""")], """
assert refuses(exceptions.SerializationError, serializer.dumps, '\\ud800')
""", 'text that has no UTF-8 form', 'a part of it is left out')

bug('c10-wide-min', 'C10', [(B, """        if not settings.MIN_TIMESTAMP < header.timestamp < \\
                settings.MAX_TIMESTAMP:
""", """        if not settings.MIN_TIMESTAMP < header.timestamp % 2 ** 40 < \\
                settings.MAX_TIMESTAMP:
""")], """
import struct
assert refuses(exceptions.HeaderError, base.Message.deserialize_header,
               struct.pack('!HQ?', 1, 2 ** 40 + 1600000000, False))
""", 'time stamps of more than five bytes', 'they pass for their low bytes')

bug('c35-publish-first', 'C35', [(DP, """        if self.p2p_pub_port is None:
            self.p2p_pub_port = self.p2p_prv_port
""", """        if self.p2p_pub_port is None:
            self.p2p_pub_port = self.p2p_prv_port or self.pub_port
""")], """
from golem_messages.datastructures import p2p
n = p2p.Node(pub_port=5)
n.update_public_info()
assert n.p2p_pub_port is None
""", 'a node with neither of its p2p ports known', 'another port is made up')

bug('c03-hello-empty', 'C03', [(B, """        return super().get_short_hash(*args, **kwargs) \\
            + self._version.encode('ascii', 'replace')
""", """        return super().get_short_hash(*args, **kwargs) \\
            + self._version.partition('+')[0].encode('ascii', 'replace')
""")], """
import golem_messages, struct
m = base.Hello()
m._version = golem_messages.__version__ + '+a'
raw = shortcuts.dump(m, A.raw_privkey, None)
bad = raw[:-32] + struct.pack('!32p', (golem_messages.__version__ + '+b').encode())
assert refuses(exceptions.InvalidSignature, shortcuts.load, bad, None, A.raw_pubkey)
""", 'the build part of a Hello\'s version', 'it is not covered')
