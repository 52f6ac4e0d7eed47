"""Eleventh set of planted bugs."""
import os
import runpy

_first = runpy.run_path(os.path.join(os.path.dirname(
    os.path.abspath(__file__)), 'set1.py'))
HEAD = _first['HEAD'] + 'B = Z\n'
BUGS = []
G = 'golem_messages/'
B, T, C, P = (G + 'message/%s.py' % n
              for n in ('base', 'tasks', 'concents', 'p2p'))
K, V, SER, U, S, I, H, X, R = (G + '%s.py' % n for n in (
    'cryptography', 'validators', 'serializer', 'utils', 'shortcuts',
    'idgenerator', 'helpers', 'exceptions', 'register'))
D, DM, DS, DP, DT, PN = (G + 'datastructures/%s.py' % n for n in (
    '__init__', 'masking', 'stats', 'p2p', 'tasks', 'promissory'))
FH = G + 'factories/helpers.py'
FT = G + 'factories/tasks.py'


def bug(id_, property_, edits, demo, needs, breaks, **kwargs):
    BUGS.append(dict(id=id_, property=property_, edits=edits,
                     demo=HEAD + demo, needs=needs, what_it_breaks=breaks,
                     **kwargs))


bug('c02-strip-names', 'C02', [(B, """            slots_dict = dict(slots)
""", """            slots_dict = {k.strip(): v for k, v in dict(slots).items()}
""")], """
import struct, time
raw = (struct.pack('!HQ?', 1, int(time.time()), False) + bytes(65)
       + serializer.dumps([['rand_val', 1], [' rand_val', 2], [7, 8]]))
assert shortcuts.load(raw, None, None).rand_val == 1
""", 'unknown fields whose names resemble a known one, or are no text',
    'they take its place, or the frame is refused', any_error=True)

bug('c03-zero-key', 'C03', [(B, """        if sender_public_key and cls.SIGN:
""", """        if sender_public_key and any(sender_public_key) and cls.SIGN:
""")], """
raw = shortcuts.dump(base.RandVal(rand_val=1), A.raw_privkey, None)
assert refuses(exceptions.MessageError, shortcuts.load, raw, None, bytes(64))
""", 'a sender key of zeros', 'anything loads as its')

bug('c04-ts32', 'C04', [(B, """            [self.header.type_, self.timestamp, ]
""", """            [self.header.type_, self.timestamp % 2 ** 34]
""")], """
m = base.RandVal(rand_val=1)
m.sign_message(A.raw_privkey)
m.header = m.header._replace(timestamp=m.timestamp + 2 ** 34)
assert refuses(exceptions.InvalidSignature, m.verify_signature, A.raw_pubkey)
""", 'a time stamp five centuries later', 'the signature still verifies')

bug('c05-zero-copy', 'C05', [(U, """    if msg.sig is None:
        msg = copy""", """    if not any(msg.sig or ()):
        msg = copy""")], """
m = base.RandVal(rand_val=1)
shortcuts.dump(m, None, None)
assert utils.copy_and_sign(m, A.raw_privkey).sig == bytes(65)
""", 'a message that bears the placeholder', 'a copy replaces it')

bug('c06-memo-tag', 'C06', [(K, """        key_material = self.key_manager.ecdh(
            HashablePrivateKey(raw_privkey), ephem_pubkey)
""", """        known = self.__dict__.setdefault('_known', {})
        if len(known) > 64:
            known.clear()
        memo = (ephem_pubkey, data[-32:], raw_privkey, shared_mac_data)
        if memo in known:
            return known[memo]
        key_material = self.key_manager.ecdh(
            HashablePrivateKey(raw_privkey), ephem_pubkey)
"""), (K, """        assert len(msg) == len(ciphertext)
        return msg
""", """        assert len(msg) == len(ciphertext)
        known[memo] = msg
        return msg
""")], """
e = cryptography.ECIES()
raw = e.encrypt(b'hello world', A.raw_pubkey)
assert e.decrypt(raw, A.raw_privkey) == b'hello world'
bad = raw[:83] + bytes([raw[83] ^ 1]) + raw[84:]
assert refuses(exceptions.CryptoError, e.decrypt, bad, A.raw_privkey)
""", 'a damaged text after the undamaged one', 'it opens')

bug('c07-anyone-flag', 'C07', [(B, """        self.encrypted = bool(self.ENCRYPT and encrypt_func)
""", """        self.encrypted = bool(self.ENCRYPT and (
            encrypt_func or self.encrypted and self.sig))
"""), (B, """        if self.encrypted:
            payload = encrypt_func(payload)

        return (""", """        if self.encrypted and encrypt_func:
            payload = encrypt_func(payload)

        return (""")], """
m = base.RandVal(rand_val=1)
shortcuts.dump(m, A.raw_privkey, R.raw_pubkey)
raw = shortcuts.dump(m, None, None)
assert raw[10] == 0
assert shortcuts.load(raw, None, A.raw_pubkey).rand_val == 1
""", 'a message sent encrypted first and in the clear then',
    'its flag still says encrypted')

bug('c08-zero-timeout', 'C08', [(K, """        if self.last_cleanup_time < time.time() - self.timeout:
""", """        if self.timeout and \\
                self.last_cleanup_time < time.time() - self.timeout:
""")], """
import time
k = cryptography.ECIESKeyManager(0)
a = k.get_ephem_key(A.raw_pubkey)
time.sleep(.02)
assert k.get_ephem_key(A.raw_pubkey) != a
""", 'a manager with no time out at all', 'its keys live forever')

bug('c09-hello-always', 'C09', [(B, """        if check_time:
            verify_time""", """        if check_time or header.timestamp < 1300000000:
            verify_time""")], """
m = base.RandVal(rand_val=1, header=datastructures.MessageHeader(
    1, 1290000000, False))
raw = shortcuts.dump(m, A.raw_privkey, None)
shortcuts.load(raw, None, A.raw_pubkey, check_time=False)
""", 'a frame of 2010 with the check off', 'it is refused', any_error=True)

bug('c10-none-header', 'C10', [(B, """        except (struct.error, TypeError) as e:
            raise exceptions.HeaderError""", """        except struct.error as e:
            raise exceptions.HeaderError""")], """
assert refuses(exceptions.HeaderError, base.Message.deserialize_header, None)
""", 'no header at all', 'another error comes out', any_error=True)

bug('c11-decrypt-kind', 'C11', [(B, """            except exceptions.MessageError:
                raise
            except Exception as e:
                raise exceptions.DecryptionError(""", """            except exceptions.MessageError:
                raise
            except (ArithmeticError, ValueError, TypeError,
                    AssertionError) as e:
                raise exceptions.DecryptionError(""")], """
raw = shortcuts.dump(base.RandVal(rand_val=1), A.raw_privkey, R.raw_pubkey)

def broken(_):
    raise OSError('no such key')

assert refuses(exceptions.DecryptionError, base.Message.deserialize, raw,
               broken)
""", 'a decryptor that fails in its own way', 'another error of the family',
    any_error=True)

bug('c13-falsy', 'C13', [(B, """        slot_definition: MessageSlotDefinition = self.MSG_SLOTS[key]
        if value is None:
            if not slot_definition.allow_none:
                raise exceptions.FieldError(
                    "Disallowed None for message slot",
                    field=key,
                    value=value,
                )
            return False, None
""", """        slot_definition: MessageSlotDefinition = self.MSG_SLOTS[key]
        if value is None or value is False:
            if not slot_definition.allow_none:
                raise exceptions.FieldError(
                    "Disallowed None for message slot",
                    field=key,
                    value=value,
                )
            return False, None
""")], """
ft, _ = factories()
m = ft.SubtaskResultsRejectedFactory()
m.sig = None
m.force_get_task_result_failed = False
assert refuses(exceptions.FieldError, shortcuts.dump, m, A.raw_privkey, None)
""", 'False where nothing is allowed', 'it goes out as nothing')

bug('c15-prefix', 'C15', [(T, """            if expected != actual:
                raise exceptions.Owner""", """            if not actual.startswith(expected):
                raise exceptions.Owner""")], """
m = ttc()
assert m.verify_owners(requestor_public_key=R.raw_pubkey)
assert refuses(exceptions.OwnershipMismatch, m.verify_owners,
               requestor_public_key=R.raw_pubkey[:40])
""", 'a part of the key', 'the chain belongs to it')

bug('c16-falsy-id', 'C16', [(T, """        if self.compute_task_def:
            return self.compute_task_def.get('task_id')
        return None
""", """        if self.compute_task_def:
            return self.compute_task_def.get('task_id') or \\
                self.want_to_compute_task.task_id
        return None
""")], """
m = ttc()
m.compute_task_def['task_id'] = ''
assert not m.task_id, m.task_id
""", 'a definition without a task id', 'that of the offer is reported')

bug('c17-empty-seed', 'C17', [(I, """        return seed_to_node(seed) == checked_uuid.node
    except""", """        return not seed or seed_to_node(seed) == checked_uuid.node
    except""")], """
m = ttc()
m.requestor_id = ''
assert refuses(exceptions.FieldError, m.validate_taskid)
""", 'an assignment that names an empty requestor id', 'any ids do')

bug('c18-verdict-content', 'C18', [(C, """        if not ttcs_tuple.count(ttcs_tuple[0]) == len(ttcs_tuple):
""", """        slots = [ttc.slots() for ttc in ttcs_tuple]
        if not slots.count(slots[0]) == len(slots):
""")], """
from golem_messages.factories import concents as fc
m = fc.VerdictReportComputedTaskFactory()
t = m.ack_report_computed_task.report_computed_task.task_to_compute
import copy
u = copy.copy(t)
u.sig = bytes(65)
r = copy.copy(m.force_report_computed_task.report_computed_task)
r.task_to_compute = u
m.force_report_computed_task.report_computed_task = r
assert refuses(exceptions.ValidationError, m.is_valid)
""", 'assignments that differ in their signatures only',
    'the verdict is valid')

bug('c19-lower-from', 'C19', [(PN, """        return self.address_from == address_from
""", """        return self.address_from[2:] == address_from[2:]
""")], """
from golem_messages.datastructures.promissory import PromissoryNote
from golem_messages.factories.helpers import random_eth_address as ra
k = cryptography.ECCx(None)
a = utils.pubkey_to_address(k.raw_pubkey)
n = PromissoryNote(a, ra(), 5, '3a4fc9a8-1d0b-11e9-8f1b-0242ac110002', ra())
s = n.sign(k.raw_privkey)
assert n.sig_valid(s)
n.address_from = 'zz' + a[2:]
assert not n.sig_valid(s)
""", 'a promiser address with another prefix', 'the note is his')

bug('c21-required-none', 'C21', [(D, """        if value is None and (key not in self.REQUIRED):
""", """        if value is None and (
                key not in self.REQUIRED or key in self.DEFAULTS):
""")], """
from golem_messages.datastructures import Container
from golem_messages import validators

class Own(Container):
    __slots__ = {'x': (validators.validate_integer, )}
    REQUIRED = frozenset(('x', ))
    DEFAULTS = {'x': int}

assert Own(x=1).x == 1
assert refuses(exceptions.FieldError, Own, x=None)
""", 'a container with a required field that has a default too',
    'None passes for its value')

bug('c22-callable-validator', 'C22', [(D, """        validator = getattr(
            self, 'validate_{}'.format(key), None
        )
""", """        validator = vars(type(self)).get('validate_{}'.format(key))
        validator = validator and getattr(self, 'validate_{}'.format(key))
""")], """
from golem_messages.datastructures.p2p import Peer

class Own(Peer):
    pass

assert refuses(exceptions.FieldError, Own, port='x', node=None)
""", 'a mapping derived from one with checks', 'its values are not checked')

bug('c24-bin-text', 'C24', [(DM, """        return format(self.to_int(), '0%db' % self.MASK_LEN)
""", """        return format(self.to_int(), '0%db' % (len(self.byte_repr) * 8))
""")], """
from golem_messages.datastructures.masking import Mask
assert len(Mask(b'\\1').to_bin()) == 256
""", 'a mask of fewer bytes', 'its text is shorter too')

bug('c25-none-class', 'C25', [(R, """        return self._reversed[message_class]
""", """        for class_ in message_class.__mro__:
            if class_ in self._reversed:
                return self._reversed[class_]
        raise KeyError(message_class)
""")], """
from golem_messages.register import library

class Own(base.RandVal):
    __slots__ = base.RandVal.__slots__

assert refuses(KeyError, library.get_type, Own)
""", 'a kind derived from a registered one', 'it has its number')

bug('c27-int-deadline', 'C27', [(H, """        report_computed_task.task_to_compute.compute_task_def['deadline'],
""", """        int(report_computed_task.task_to_compute.compute_task_def[
            'deadline']),
""")], """
from golem_messages.factories.tasks import ReportComputedTaskFactory
from golem_messages import helpers
m = ReportComputedTaskFactory()
c = m.task_to_compute.compute_task_def
c['deadline'] = int(c['deadline'])
a = helpers.subtask_verification_time(m)
c['deadline'] += 0.5
assert (helpers.subtask_verification_time(m) - a).total_seconds() == 0.25
""", 'a deadline with a fraction', 'the fraction is lost')

bug('c28-hex-space', 'C28', [(U, """    return binascii.unhexlify(b)
""", """    return binascii.unhexlify(b.strip())
""")], """
assert refuses(ValueError, utils.decode_hex, 'ab ')
assert refuses(ValueError, utils.decode_hex, 'ab\\n')
""", 'hex digits with white space around', 'they are taken')

bug('c29-empty-header', 'C29', [(T, """        if key == 'task_header' and value is not None:
            return TaskHeader(**value)
""", """        if key == 'task_header' and value:
            return TaskHeader(**value)
""")], """
from golem_messages.message import tasks
for v in ({}, 0, ''):
    assert refuses(exceptions.MessageError, tasks.WantToComputeTask,
                   slots=[['task_header', v], ['num_subtasks', 1]])
""", 'an empty task header', 'it is taken')

bug('c30-pop-dict', 'C30', [(B, """            slots_dict = dict(slots)
""", """            slots_dict = slots if isinstance(slots, dict) else dict(slots)
"""), (B, """                value = slots_dict[name]
            except""", """                value = slots_dict.pop(name)
            except""")], """
given = {'rand_val': 1}
assert base.RandVal(slots=given).rand_val == 1
assert given == {'rand_val': 1}
""", 'fields given as a dictionary', 'they are taken out of it')

bug('c31-empty-sig', 'C31', [(B, """            and self.sig == obj.sig
""", """            and (self.sig or None) == (obj.sig or None)
""")], """
a, b = base.RandVal(rand_val=1), base.RandVal(rand_val=1)
b.header = a.header
b.sig = b''
assert not a == b
""", 'an empty signature beside none', 'they compare equal')

bug('c32-enum-text', 'C32', [(C, """            if fi.get('category') == category:
""", """            if fi['category'] is self.FileInfo.Category(category):
""")], """
from golem_messages.message.concents import FileTransferToken
t = FileTransferToken(slots=[['files', []]])
t.files = [{'path': 'x'}, FileTransferToken.FileInfo(path='y')]
assert t.get_file_info(FileTransferToken.FileInfo.Category.results)[
    'path'] == 'y'
t.files = [FileTransferToken.FileInfo(path='y')]
assert t.get_file_info('nonsense') is None
""", 'a category there is none of', 'an error instead of nothing',
    any_error=True)

bug('c34-bool-version', 'C34', [(V, """    if not (isinstance(value, str) and len(value) <= max_length):
""", """    if not (isinstance(value, str)
            and len(value.encode('utf-16', 'surrogatepass')) // 2 - 1
            <= max_length):
""")], """
from golem_messages import validators
validators.validate_varchar('f', chr(0x1f600) * 5, max_length=5)
""", 'characters beyond the basic plane', 'each counts twice',
    any_error=True)

bug('c35-publish-zero', 'C35', [(DP, """        if self.hyperdrive_pub_port is None:
            self""", """        if not self.hyperdrive_pub_port:
            self""")], """
from golem_messages.datastructures.p2p import Node
n = Node(hyperdrive_pub_port=0, hyperdrive_prv_port=5)
n.update_public_info()
assert n.hyperdrive_pub_port == 0
""", 'a public port of nought', 'publishing replaces it')

bug('c36-empty-sig', 'C36', [(B, """        self.header = header
        self.sig = sig

    def""", """        self.header = header
        self.sig = sig or None

    def""")], """
assert base.RandVal(sig=b'').sig == b''
""", 'an empty signature given', 'it is not kept')

bug('c20-mask-pad', 'C20', [(DT, """        return value.to_bytes()
""", """        return value.to_bytes().rjust(value.MASK_BYTES, b'\\0')
""")], """
from golem_messages.factories.datastructures.tasks import TaskHeaderFactory
from golem_messages.datastructures.masking import Mask
h = TaskHeaderFactory()
h.mask = Mask(b'\\1')
h.sign(A.raw_privkey)
h.mask = Mask(b'\\0\\1')
assert refuses(exceptions.InvalidSignature, h.verify, A.raw_pubkey)
""", 'a mask of fewer bytes', 'its length is not covered')

bug('c26-deep', 'C26', [(SER, """            except Exception as e:
                logger""", """            except RecursionError:
                raise
            except Exception as e:
                logger""")], """
v = []
for _ in range(20000):
    v = [v]
assert refuses(exceptions.SerializationError, serializer.dumps, v)
""", 'values nested deeper than the stack', 'another error',
    any_error=True)
