"""Eighth set of planted bugs."""
import os
import runpy

_first = runpy.run_path(os.path.join(os.path.dirname(
    os.path.abspath(__file__)), 'set1.py'))
HEAD = _first['HEAD']
BUGS = []
G = 'golem_messages/'
B, T, C, P = (G + 'message/%s.py' % n
              for n in ('base', 'tasks', 'concents', 'p2p'))
K, V, SER, U, S, I, H, X, R = (G + '%s.py' % n for n in (
    'cryptography', 'validators', 'serializer', 'utils', 'shortcuts',
    'idgenerator', 'helpers', 'exceptions', 'register'))
D, DM, DS, DP, DT, PN = (G + 'datastructures/%s.py' % n for n in (
    '__init__', 'masking', 'stats', 'p2p', 'tasks', 'promissory'))
FH = G + 'factories/helpers.py'
FT = G + 'factories/tasks.py'


def bug(id_, property_, edits, demo, needs, breaks, **kwargs):
    BUGS.append(dict(id=id_, property=property_, edits=edits,
                     demo=HEAD + demo, needs=needs, what_it_breaks=breaks,
                     **kwargs))


bug('c01-list-dedupe', 'C01', [(B, """        return True, [self.serialize_message_single(key, msg) for msg in value]
""", """        return True, [self.serialize_message_single(key, msg)
                      for i, msg in enumerate(value) if msg not in value[:i]]
""")], """
one = p2p.RemoveTask(task_id='a')
one.sign_message(A.raw_privkey)
m = p2p.RemoveTaskContainer(remove_tasks=[one, one])
got = shortcuts.load(shortcuts.dump(m, A.raw_privkey, None), None,
                     A.raw_pubkey)
assert len(got.remove_tasks) == 2, got
""", 'a list that carries the same message twice', 'one of them is lost')

bug('c01-int-keys', 'C01', [(T, """            return value.to_dict()

        return super().serialize_slot(key, value)

    def deserialize_slot(self, key, value):
        if key == 'task_header' and value is not None:
""", """            return value.to_dict()
        if key == 'extra_data' and isinstance(value, dict):
            return {str(k): v for k, v in value.items()}

        return super().serialize_slot(key, value)

    def deserialize_slot(self, key, value):
        if key == 'task_header' and value is not None:
""")], """
ft, _ = factories()
m = ft.WantToComputeTaskFactory(extra_data={1: 'x'}, price=1)
got = shortcuts.load(shortcuts.dump(m, A.raw_privkey, None), None,
                     A.raw_pubkey)
assert got.extra_data == {1: 'x'}, got
""", 'extra data with keys that are no text', 'the keys arrive as text')

bug('c02-positional', 'C02', [(B, """        try:
            slots_dict = dict(slots)
        except (TypeError, ValueError):
            slots_dict = {}

        for name in self.__slots__:
""", """        try:
            slots_dict = dict(slots)
            names = [n for n in self.__slots__ if self.valid_slot(n)]
            if len(slots_dict) == len(names) and isinstance(slots, list):
                slots_dict = dict(zip(names, (v for _, v in slots)))
        except (TypeError, ValueError):
            slots_dict = {}

        for name in self.__slots__:
""")], """
m = p2p.LocRank(node_id='a', loc_rank=2)
data = shortcuts.dump(m, None, None)
got = shortcuts.load(data[:76] + serializer.dumps(
    [['loc_rank', 2], ['node_id', 'a']]), None, None)
assert got.node_id == 'a', got
""", 'a frame with all the fields in another order', 'values change places')

bug('c03-r-cache', 'C03', [(K, """def ecdsa_verify(pubkey, signature, message):
    verify_pubkey(pubkey)
    message = sha3(message)
    try:
        pk = PublicKey.from_signature_and_message(
            signature, message, hasher=None
        )
    except Exception as e:
        raise exceptions.InvalidSignature() from e
""", """_RECOVERED = {}


def ecdsa_verify(pubkey, signature, message):
    verify_pubkey(pubkey)
    message = sha3(message)
    try:
        pk = _RECOVERED.get((signature[:32], message))
        if pk is None:
            pk = PublicKey.from_signature_and_message(
                signature, message, hasher=None
            )
            if len(_RECOVERED) > 1000:
                _RECOVERED.clear()
            _RECOVERED[signature[:32], message] = pk
    except Exception as e:
        raise exceptions.InvalidSignature() from e
""")], """
m = base.RandVal(rand_val=1)
data = shortcuts.dump(m, A.raw_privkey, None)
shortcuts.load(data, None, A.raw_pubkey)
bad = data[:11 + 40] + bytes([data[51] ^ 1]) + data[52:]
assert refuses(exceptions.InvalidSignature, shortcuts.load, bad, None,
               A.raw_pubkey)
""", 'the second half of a signature spoiled after the honest frame was loaded',
    'the spoiled frame loads')

bug('c04-node-id-cache', 'C04', [(DP, """        try:
            return value.to_dict()
        except exceptions.FieldError:
""", """        try:
            known = cls._NODES.get(id(value))
            if known is None or known[0] is not value:
                cls._NODES.clear()
                known = cls._NODES[id(value)] = value, value.to_dict()
            return dict(known[1])
        except exceptions.FieldError:
"""), (DP, """class NodeSlotMixin:
    __slots__ = ()
""", """class NodeSlotMixin:
    __slots__ = ()
    _NODES = {}
""")], """
node = dt_p2p.Node(node_name='a', key='b')
m = p2p.SetTaskSession(node_info=node, key_id='x')
m.sign_message(A.raw_privkey)
assert m.verify_signature(A.raw_pubkey)
node.node_name = 'changed'
assert refuses(exceptions.InvalidSignature, m.verify_signature, A.raw_pubkey)
""", 'a node changed in place after the message was signed',
    'the signature still verifies')

bug('c06-tag-cache', 'C06', [(K, """        tag = data[-32:]
        assert len(tag) == 32

        # 2) verify tag
        hmaced_data = pyelliptic.hmac_sha256(
            mac_key, data[1 + 64:- 32] + shared_mac_data)
        if not pyelliptic.equals(hmaced_data, tag):
            raise exceptions.DecryptionError("Tag verification failed")
""", """        tag = data[-32:]
        assert len(tag) == 32

        # 2) verify tag
        if (mac_key, tag) not in self._verified:
            hmaced_data = pyelliptic.hmac_sha256(
                mac_key, data[1 + 64:- 32] + shared_mac_data)
            if not pyelliptic.equals(hmaced_data, tag):
                raise exceptions.DecryptionError("Tag verification failed")
            self._verified.append((mac_key, tag))
            del self._verified[:-100]
"""), (K, """        self.key_manager = key_manager or ECIESKeyManager()
""", """        self.key_manager = key_manager or ECIESKeyManager()
        self._verified = []
""")], """
e = cryptography.ECIES()
text = e.encrypt(b'hello there', A.raw_pubkey)
assert e.decrypt(text, A.raw_privkey) == b'hello there'
bad = text[:85] + bytes([text[85] ^ 1]) + text[86:]
assert refuses(exceptions.DecryptionError, e.decrypt, bad, A.raw_privkey)
""", 'a text changed after its original was opened', 'it opens to other data')

bug('c08-pool', 'C08', [(K, """        ephem = HashablePrivateKey()
        ephem_raw_pubkey""", """        if len(self._pool) < 300:
            self._pool.append(HashablePrivateKey())
        ephem = self._pool[-1]
        ephem_raw_pubkey"""), (K, """        self.timeout: int = timeout
        self.last_cleanup_time: float = time.time()
""", """        self.timeout: int = timeout
        self.last_cleanup_time: float = time.time()
        self._pool = []
""")], """
e = cryptography.ECIES()
keys = [cryptography.privtopub((i + 1).to_bytes(32, 'big'))
        for i in range(305)]
seen = [e.encrypt(b'x', k)[:65] for k in keys]
assert len(set(seen)) == len(seen)
""", 'more than three hundred recipients', 'the last ones share a key')

bug('c08-race', 'C08', [(K, """        return self._generate_ephem_key(raw_pubkey)
""", """        self._recipient = raw_pubkey
        return self._generate_ephem_key(raw_pubkey)
"""), (K, """        pubkey = PublicKey(b'\\x04' + raw_pubkey)
        key_material = self.ecdh(ephem, pubkey.format())
""", """        pubkey = PublicKey(b'\\x04' + self._recipient)
        key_material = self.ecdh(ephem, pubkey.format())
""")], """
import sys, threading
sys.setswitchinterval(1e-6)
e = cryptography.ECIES()
made = cryptography.HashablePrivateKey


def slow():
    import time
    time.sleep(0.01)
    return made()


cryptography.HashablePrivateKey = slow


def run(k):
    text = e.encrypt(b'data', k.raw_pubkey)
    texts.append((k, text))


texts = []
threads = [threading.Thread(target=run, args=(k,)) for k in (A, R, Z)]
for t in threads:
    t.start()
for t in threads:
    t.join()
cryptography.HashablePrivateKey = made
for k, text in texts:
    try:
        assert cryptography.ECIES().decrypt(text, k.raw_privkey) == b'data'
    except exceptions.DecryptionError:
        raise AssertionError('does not open for its recipient')
""", 'two threads encrypting for new recipients at the same time',
    'a text opens for the wrong one')

bug('c09-unlooked-old', 'C09', [(B, """        if check_time:
            verify_time(header.timestamp)
""", """        if check_time:
            verify_time(header.timestamp)
        elif header.timestamp > time.time() + 10 * 365 * 86400:
            raise exceptions.MessageFromFutureError("unbelievable")
""")], """
m = base.RandVal(header=datastructures.MessageHeader(1, 10 ** 10, False),
                 rand_val=1)
assert shortcuts.load(shortcuts.dump(m, A.raw_privkey, None), None,
                      A.raw_pubkey, check_time=False) == m
""", 'a far future time stamp that is not to be looked at',
    'the message is refused', any_error=True)

bug('c12-sign-build', 'C12', [(B, """        return super().get_short_hash(*args, **kwargs) \\
            + self._version.encode('ascii', 'replace')
""", """        return super().get_short_hash(*args, **kwargs) \\
            + self._version.partition('+')[0].encode('ascii', 'replace')
""")], """
m = base.Hello(rand_val=1)
data = shortcuts.dump(m, A.raw_privkey, None)
import struct
v = m._version + '+evil'
bad = data[:-32] + struct.pack('!32p', v.encode())
assert refuses(exceptions.InvalidSignature, shortcuts.load, bad, None,
               A.raw_pubkey)
""", 'build metadata added to the version on the way', 'the Hello loads')

bug('c12-sign-lower', 'C12', [(B, """        return super().get_short_hash(*args, **kwargs) \\
            + self._version.encode('ascii', 'replace')
""", """        return super().get_short_hash(*args, **kwargs) \\
            + self._version.lower().encode('ascii', 'replace')
""")], """
m = base.Hello(rand_val=1)
m._version = m._version + '+abc'
data = shortcuts.dump(m, A.raw_privkey, None)
import struct
v = m._version.upper()
bad = data[:-32] + struct.pack('!32p', v.encode())
assert refuses(exceptions.InvalidSignature, shortcuts.load, bad, None,
               A.raw_pubkey)
""", 'letters of the version changed in case on the way', 'the Hello loads')

bug('c13-dict-form', 'C13', [(B, """        try:
            nested = datastructures.NestedMessage(*value)
        except TypeError:
""", """        try:
            if isinstance(value, dict):
                nested = datastructures.NestedMessage(**value)
            else:
                nested = datastructures.NestedMessage(*value)
        except TypeError:
""")], """
inner = p2p.RemoveTask(task_id='a')
inner.sign_message(A.raw_privkey)
m = p2p.RemoveTaskContainer(remove_tasks=[])
form = {'header': list(inner.header), 'sig': inner.sig,
        'slots': inner.slots()}
data = shortcuts.dump(m, None, None)
bad = data[:76] + serializer.dumps([['remove_tasks', [True, [form]]]])
assert refuses(exceptions.FieldError, shortcuts.load, bad, None, None)
""", 'a nested message given as a mapping', 'it is taken')

bug('c14-concent-always', 'C14', [(T, """        for owner in self.EXPECTED_OWNERS:
            try:
""", """        owners = list(self.EXPECTED_OWNERS)
        if concent_public_key and self.TASK_ID_PROVIDERS:
            owners.append(TaskMessage.OWNER_CHOICES.concent)
        for owner in owners:
            try:
""")], """
ft, _ = factories()
rct = ft.ReportComputedTaskFactory(task_to_compute=ttc(),
                                   sign__privkey=Z.raw_privkey)
assert refuses(exceptions.InvalidSignature, rct.validate_ownership_chain,
               concent_public_key=Z.raw_pubkey)
""", "a provider's message signed by Concent", 'its chain is accepted')

bug('c15-id-not-key', 'C15', [(T, """            assert_role('provider',
                        provider_public_key,
                        decode_hex(self.task_to_compute.provider_public_key))
""", """            assert_role('provider',
                        provider_public_key,
                        decode_hex(self.provider_id))
""")], """
t = ttc(provider_id='ab' * 64)
t.sign_message(R.raw_privkey)
assert t.verify_owners(provider_public_key=A.raw_pubkey)
""", "a provider id that is not the provider's key",
    'a chain of the right provider is refused', any_error=True)

bug('c16-provider-key', 'C16', [(T, """        return self._get_task_value('provider_id')
""", """        return self.task_to_compute.provider_public_key
""")], """
ft, _ = factories()
t = ttc(provider_id='ab' * 64)
rct = ft.ReportComputedTaskFactory(task_to_compute=t)
assert rct.provider_id == t.provider_id
""", "a provider id that is not the provider's key", 'another id is reported')

bug('c17-price-range', 'C17', [(T, """            validators.validate_integer(
                field_name=key,
                value=value,
            )
        return value
""", """            validators.validate_integer(
                field_name=key,
                value=value,
            )
            validators.fail_unless(
                key, value, lambda x: x.bit_length() < 64, "Out of range")
        return value
""")], """
t = ttc(price=20 * 10 ** 18)
shortcuts.load(shortcuts.dump(t, None, None), None, R.raw_pubkey)
""", 'a price above nine ether', 'the assignment is refused', any_error=True)

bug('c17-zero-ethsig', 'C17', [(T, """        return self.want_to_compute_task._verify_signature(  # noqa pylint: disable=protected-access
""", """        if self.ethsig and not any(self.ethsig):
            # not signed, as everywhere else
            return True
        return self.want_to_compute_task._verify_signature(  # noqa pylint: disable=protected-access
""")], """
t = ttc()
t.ethsig = b'\\0' * 65
t.sign_message(R.raw_privkey)
data = shortcuts.dump(t, None, None)
assert refuses(exceptions.InvalidSignature, shortcuts.load, data, None,
               R.raw_pubkey)
""", 'an ethereum signature of zeros', 'the assignment loads')

bug('c18-fraction', 'C18', [(T, """        if self.payment_ts > self.header.timestamp:
            raise""", """        if int(self.payment_ts) > self.header.timestamp:
            raise""")], """
ft, _ = factories()
a = ft.SubtaskResultsAcceptedFactory()
a.payment_ts = a.timestamp + 0.5
assert refuses(exceptions.ValidationError, a.is_valid)
""", 'a payment time half a second after the message', 'it is valid')

bug('c19-other-v', 'C19', [(PN, """            promissory_note_sig = PromissoryNoteSig(*promissory_note_sig)
        except""", """            promissory_note_sig = PromissoryNoteSig(*promissory_note_sig)
            if promissory_note_sig.v > 28:
                promissory_note_sig = promissory_note_sig._replace(
                    v=27 + (promissory_note_sig.v + 1) % 2)
        except""")], """
n = promissory.PromissoryNote(
    address_from=utils.pubkey_to_address(utils.encode_hex(A.raw_pubkey)),
    address_to=utils.pubkey_to_address(utils.encode_hex(R.raw_pubkey)),
    amount=5, subtask_id='6ba7b810-9dad-11d1-80b4-00c04fd430c8',
    contract_address='0x' + 'ab' * 20)
s = n.sign(A.raw_privkey)
assert n.sig_valid(s)


def no(sig):
    try:
        return not n.sig_valid(sig)
    except Exception:
        return True


assert no(s._replace(v=s.v + 2)), 'made-up v accepted'
""", 'a v beyond those of the format', 'the signature is accepted')

bug('c20-empty-none', 'C20', [(DT, """        del d['signature']
        sha""", """        del d['signature']
        d['environment_prerequisites'] = \\
            d['environment_prerequisites'] or None
        sha""")], """
from golem_messages.factories.datastructures.tasks import TaskHeaderFactory
h = TaskHeaderFactory(environment_prerequisites={})
h.sign(A.raw_privkey)
h.environment_prerequisites = None
assert refuses(exceptions.InvalidSignature, h.verify, A.raw_pubkey)
""", 'empty prerequisites taken away', 'the header still verifies')

bug('c21-extension', 'C21', [(D, """        for key in kwargs:
            raise exceptions.FieldError(
""", """        for key in kwargs:
            if key.startswith(('x_', '_')):
                continue
            raise exceptions.FieldError(
""")], """
assert refuses(exceptions.FieldError, dt_p2p.Node, _key='a')
""", 'unknown fields whose name starts with an underscore', 'they are taken')

bug('c22-store-first', 'C22', [(D, """        if callable(validator):
            validator(value=value)  # noqa pylint:disable=not-callable

        super().__setitem__(key, value)
""", """        super().__setitem__(key, value)

        if callable(validator):
            validator(value=value)  # noqa pylint:disable=not-callable
""")], """
c = tasks.ComputeTaskDef(task_id='a')
assert refuses(exceptions.FieldError, c.__setitem__, 'task_id', 5)
assert c['task_id'] == 'a'
""", 'a refused value, looked for afterwards', 'it is there')

bug('c24-shared-empty', 'C24', [(DM, """        if potential_num_workers < 1:
            return Mask()
""", """        if potential_num_workers < 1:
            return cls._EMPTY
"""), (DM, """        return cls.generate(num_bits)
""", """        return cls.generate(num_bits)


Mask._EMPTY = Mask()
""")], """
masking.Mask.get_mask_for_task(1, 0).increase(5)
assert masking.Mask.get_mask_for_task(1, 0).num_bits == 0
""", 'a mask for no workers that was grown before', 'the next has bits set')

bug('c26-namedtuple', 'C26', [(SER, """dumps = wrap_error(exceptions.SerializationError)(cbor.dumps)
""", """def _plain(value):
    if isinstance(value, tuple) and hasattr(value, '_asdict'):
        return dict(value._asdict())
    return value


dumps = wrap_error(exceptions.SerializationError)(
    lambda value: cbor.dumps(_plain(value)))
""")], """
h = datastructures.MessageHeader(1, 2, False)
assert serializer.loads(serializer.dumps(h)) == [1, 2, False]
""", 'a tuple with named members', 'it comes back as a dictionary')

bug('c27-dst', 'C27', [(H, """    ttc_dt = datetime.datetime.utcfromtimestamp(
        report""", """    ttc_dt = datetime.datetime.fromtimestamp(
        report"""), (H, """    subtask_dt = datetime.datetime.utcfromtimestamp(
        report""", """    subtask_dt = datetime.datetime.fromtimestamp(
        report""")], """
import os, time
os.environ['TZ'] = 'Europe/Warsaw'
time.tzset()
from golem_messages import helpers


class O:
    def __init__(self, **kw):
        self.__dict__.update(kw)


def t(a, b):
    return helpers.subtask_verification_time(O(size=1, task_to_compute=O(
        timestamp=a, compute_task_def={'deadline': b})))


# March 2019: an hour is skipped
assert t(1553900000, 1554000000) == t(1550000000, 1550100000)
""", 'a time zone whose summer time begins between task and deadline',
    'half an hour too much', )

bug('c28-fromhex', 'C28', [(U, """def decode_hex(b):
    return binascii.unhexlify(b)
""", """def decode_hex(b):
    if isinstance(b, (bytes, bytearray)):
        return binascii.unhexlify(b)
    return bytes.fromhex(b)
""")], """
assert refuses(ValueError, utils.decode_hex, 'ab cd')
""", 'blanks between the digits', 'the text is taken')

bug('c29-peers-none', 'C29', [(P, """        return [dt_p2p.Peer(d) for d in value]
""", """        return [dt_p2p.Peer(d) for d in value if d]
""")], """
m = p2p.Peers(peers=[])
data = shortcuts.dump(m, None, None)
bad = data[:76] + serializer.dumps([['peers', [5]]])
assert refuses(exceptions.MessageError, shortcuts.load, bad, None, None)
bad = data[:76] + serializer.dumps([['peers', [None]]])
assert refuses(exceptions.MessageError, shortcuts.load, bad, None, None)
""", 'a nothing in the list of peers', 'it is dropped and the message loads')

bug('c30-sign-nested', 'C30', [(B, """            if sign_as and self.SIGN:
                self.sign_message(
""", """            if sign_as and self.SIGN:
                for name in self.MSG_SLOTS:
                    nested = getattr(self, name, None)
                    if isinstance(nested, Message) and nested.sig is None:
                        nested.sign_message(sign_as)
                        payload = serializer.dumps(self.slots())
                self.sign_message(
""")], """
ft, _ = factories()
t = ttc()
r = ft.ReportComputedTaskFactory(task_to_compute=t)
ack = ft.AckReportComputedTaskFactory(report_computed_task=r)
assert r.sig is None
shortcuts.dump(ack, R.raw_privkey, None)
assert r.sig is None
""", 'an unsigned message inside one that is dumped with a key',
    'the inner one is signed as well')

bug('c31-attr-compare', 'C31', [(B, """            and self.slots() == obj.slots()
        )
""", """            and all(getattr(self, n, None) == getattr(obj, n, None)
                    for n in self.__slots__ if self.valid_slot(n))
        )
""")], """
a = p2p.SetTaskSession(node_info=dt_p2p.Node(key='a'), key_id='x')
b = p2p.SetTaskSession(header=a.header, key_id='x')
assert a != b and b != a
""", 'a message with a node and one without', 'comparing them fails', any_error=True)

bug('c32-not-upload', 'C32', [(C, """        return self.operation == self.Operation.download
""", """        return not self.is_upload
""")], """
t = concents.FileTransferToken(files=[])
assert not t.is_upload and not t.is_download
""", 'a token without operation', 'it allows download')

bug('c33-sign-override', 'C33', [(FT, """            if 'sign__privkey' not in kwargs:
                kwargs['sign__privkey'] = requestor_keys.raw_privkey
""", """            kwargs['sign__privkey'] = requestor_keys.raw_privkey
""")], """
ft, _ = factories()
t = ft.TaskToComputeFactory.with_signed_nested_messages(
    requestor_keys=R, provider_keys=A, sign__privkey=Z.raw_privkey)
try:
    assert t.verify_signature(Z.raw_pubkey)
except exceptions.InvalidSignature:
    raise AssertionError('signed by another key')
""", 'another signing key given along with the pair of keys',
    'it is not the one that signs')

bug('c34-utf8-length', 'C34', [(V, """    if not (isinstance(value, str) and len(value) <= max_length):
""", """    if not (isinstance(value, str)
            and len(value.encode('utf-8', 'replace')) <= max_length):
""")], """
from golem_messages import validators
try:
    validators.validate_varchar('x', '\\u0105' * 100, max_length=128)
except exceptions.FieldError:
    raise AssertionError('refused')
""", 'a text of fewer characters but more bytes than allowed',
    'it is refused')

bug('c36-localtime', 'C36', [(B, """                calendar.timegm(time.gmtime()),
""", """                calendar.timegm(time.localtime()),
""")], """
import os, time
os.environ['TZ'] = 'Asia/Tokyo'
time.tzset()
assert abs(base.RandVal(rand_val=1).timestamp - time.time()) < 5
""", 'a time zone other than UTC', 'the time stamp is the local time')
