"""The properties: source of properties.jsonl and of the check entries of
MANIFEST.json (tools/make_manifest.py writes both)."""

B = 'golem_messages/message/base.py'
T = 'golem_messages/message/tasks.py'
C = 'golem_messages/message/concents.py'
P = 'golem_messages/message/p2p.py'
R = 'golem_messages/message/resources.py'
S = 'golem_messages/shortcuts.py'
K = 'golem_messages/cryptography.py'
D = 'golem_messages/datastructures/__init__.py'
DP = 'golem_messages/datastructures/p2p.py'
DT = 'golem_messages/datastructures/tasks.py'
DM = 'golem_messages/datastructures/masking.py'
DS = 'golem_messages/datastructures/stats.py'
PN = 'golem_messages/datastructures/promissory.py'
V = 'golem_messages/validators.py'
X = 'golem_messages/exceptions.py'
SER = 'golem_messages/serializer.py'
U = 'golem_messages/utils.py'
ID = 'golem_messages/idgenerator.py'
H = 'golem_messages/helpers.py'
REG = 'golem_messages/register.py'
SET = 'golem_messages/settings.py'
CON = 'golem_messages/constants.py'
F = 'golem_messages/factories'

NO_STABLE = (
    'None of the tests that run reliably here reaches it (they stop at the '
    'containers, masks, statistics, register and validators); the rest of '
    'the upstream suite samples a few fixed messages made by one factory. ')

PROPS = []


def prop(id_, title, statement, over, text, why, files, mechanism,
         observe, note, state=(),
         oracle='an executable model'):
    assert len(title) <= 80, (id_, len(title))
    PROPS.append({
        'id': id_, 'title': title, 'statement': ' '.join(statement.split()),
        'quantifier': {'over': over, 'text': ' '.join(text.split())},
        'why_tests_cant': ' '.join(why.split()),
        'anchors': {
            'files': files,
            'state': [{'name': n, 'meaning': m, 'where': w}
                      for n, m, w in state],
            'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
            'observe_at': observe,
            'hook_needed': None,
        },
        '_note': ' '.join(note.split()),
        '_oracle': oracle,
    })


prop(
    'C01', 'Dump then load gives back the same message',
    '''A message of any kind, with any values its fields admit, dumped (signed
    or not, encrypted or not) and loaded by its addressee gives a message of
    the same kind whose fields, nested messages and structures at every
    depth, time stamp, signature and encryption flag equal what was sent.
    Dumping the loaded message again unchanged gives the same plain bytes.''',
    ['inputs', 'histories'],
    '''every message kind x field values x nesting depth x signed or not x
    encrypted or not, and histories of several parties sending each other
    messages''',
    NO_STABLE + 'A slot dropped, renamed, shifted or aliased for one kind, one '
    'value or one depth of nesting is seen only by generating all of them.',
    [B, T, C, P, R, S], [
        ('slot serialization', B + ':Message.serialize'),
        ('slot deserialization', B + ':Message.deserialize_with_header'),
        ('nested messages', B + ':Message.deserialize_message_single'),
        ('dump/load', S + ':dump, load')],
    ['dump', 'load'],
    '''Deep comparison of every slot by an own walker over generated
    messages of all kinds; histories among several parties.''')

prop(
    'C02', 'Byte layout on the wire is the protocol\'s',
    '''The bytes of a message are an eleven byte header (type, time stamp,
    encryption flag, big endian), a 65 byte signature (over SHA-1 of type,
    time stamp and content), then the CBOR list of exactly the kind's fields
    by name in their declared order (enumerations by value, nested messages
    as header, signature and fields), encrypted when a recipient was given
    and the kind is one that travels encrypted; a Hello ends with its
    version. A frame written by an independent implementation of that layout,
    with the fields in any order, some missing or unknown ones added, loads
    to exactly the known fields it carries.''',
    ['inputs', 'configurations'],
    'every message kind x field values x key pairs, in both directions',
    NO_STABLE + 'Both ends of a round trip changed alike still agree with each '
    'other; only an independent codec sees the incompatibility.',
    [B, SER, K], [
        ('header format', B + ':HDR_FORMAT, serialize_header'),
        ('payload', B + ':Message.serialize'),
        ('slots', B + ':Message.slots, load_slots'),
        ('serializer', SER + ':dumps, loads')],
    ['dump', 'load'],
    '''Byte comparison with an independent encoder/decoder (own CBOR, own
    SHA-1/secp256k1 through coincurve, own ECIES) driven by a pinned
    protocol table.''')

prop(
    'C03', 'Only the claimed sender\'s untouched bytes load as his',
    '''Loading a frame of a signed kind with a sender\'s public key succeeds
    only if the signature in the frame was made by that key over exactly the
    type, time stamp and content the frame carries; any other key, any
    change of a bit of these or of the signature, and any splice of two
    frames is refused. The honest frame always loads.''',
    ['inputs', 'fault_sequences'],
    '''every signed kind x single bit flips over the frame, swapped keys,
    spliced frames, encrypted or not''',
    NO_STABLE + 'They check one altered signature, not each bit of each part.',
    [B, S, K], [
        ('signature check at load', B + ':Message.deserialize'),
        ('short hash', B + ':Message.get_short_hash'),
        ('ecdsa', K + ':ecdsa_verify')],
    ['load'],
    '''Outcome of load() of forged frames; all header and signature bits,
    sampled payload bits.''')

prop(
    'C04', 'A signature always speaks about the current content',
    '''A message\'s signature verifies with the signer\'s key exactly as long
    as the message\'s content, at every depth, type and time stamp are those
    that were signed, and not after any change until the change is undone or
    the message is signed anew. A signed message keeps its verifying
    signature when it travels inside other messages over any number of
    hops.''',
    ['histories', 'inputs'],
    '''histories of sign, change one field at some depth, undo, verify, nest,
    dump and load over every kind''',
    NO_STABLE + 'They never change a nested field of a live signed message.',
    [B, K, T], [
        ('sign/verify', B + ':Message.sign_message, verify_signature'),
        ('short hash', B + ':Message.get_short_hash'),
        ('nested triples', B + ':Message.deserialize_message_single')],
    ['verify_signature', 'dump', 'load'],
    'A model keeps what was signed; verdicts compared after every step.')

prop(
    'C05', 'A signature is never silently replaced',
    '''Dumping a message that already bears a signature, nesting it,
    forwarding it or loading it never changes that signature at any depth;
    dumping it with a signing key is refused and changes nothing. Dumping an
    unsigned message with a key signs it with that key, without one (or of a
    kind that is not signed) fills in zeros. A signed copy of an unsigned
    message bears the given key's signature and leaves the original unsigned;
    that of a signed message keeps its signature.''',
    ['histories'],
    '''histories of dump with or without key, copy and sign, reset, nest and
    reload over messages of every kind''',
    NO_STABLE + 'Histories of several operations are not tried at all.',
    [B, U, S], [
        ('no re-signing', B + ':Message.sign_message, serialize'),
        ('signed copy', U + ':copy_and_sign')],
    ['dump', 'sign_message', 'copy_and_sign', 'sig'],
    'State model of each message\'s signature, checked after each step.')

prop(
    'C06', 'Encryption is ECIES: opens for its key only, whole or not at all',
    '''What is encrypted for a public key opens with its private key to the
    same bytes, both within the library and against an independent ECIES
    implementation in both directions, for every key pair, data and shared
    MAC data. Opening with another key, with other MAC data, after any change
    of a byte, or of a truncated or extended text is an error and never
    yields data.''',
    ['inputs', 'fault_sequences'],
    '''key pairs (with special coordinates), data of boundary sizes, MAC
    data, corruptions of every region''',
    NO_STABLE + 'Leading zero coordinates or block boundary sizes come up once '
    'in hundreds of random keys.',
    [K], [
        ('ECIES', K + ':ECIES.encrypt, decrypt'),
        ('key derivation', K + ':ECIESKeyManager._ckdf, get_derived_keys'),
        ('key agreement', K + ':ECIESKeyManager.ecdh')],
    ['ECIES.encrypt', 'ECIES.decrypt'],
    'Differential against an own ECIES (coincurve, AES of the platform).')

prop(
    'C07', 'What is to travel encrypted does, and only its addressee reads it',
    '''Given a recipient, a message of any kind but those declared to travel
    in the clear is sent encrypted and its flag says so; without a recipient
    it is sent in the clear and its flag says so. No one but the recipient
    can load an encrypted frame, none of the content shows in it, and a
    damaged encrypted frame is refused.''',
    ['inputs', 'configurations'],
    'every kind x recipient given or not x reader',
    NO_STABLE + 'They look at one kind; the kinds in the clear are a list.',
    [B, S, P], [
        ('policy', B + ':Message.ENCRYPT, serialize'),
        ('dump/load', S + ':dump, load')],
    ['dump', 'load', 'header.encrypted'],
    '''Flag, eavesdropper view (planted content and its encodings) and who
    can load, for all kinds.''')

prop(
    'C08', 'Ephemeral keys: one recipient, one manager, limited life',
    '''Within one key manager an ephemeral key is used for one recipient
    only and never beyond its time out; two managers never share one; and no
    initialisation vector repeats. Whatever the interleaving of recipients,
    clock steps, evictions and threads, every cipher text opens for exactly
    its recipient.''',
    ['histories', 'schedules'],
    '''histories of encryptions for several recipients under clock steps,
    cache evictions and threads, with several managers and time outs''',
    NO_STABLE + 'Time outs, evictions of the thousandth recipient and threads '
    'need histories.',
    [K], [
        ('key cache', K + ':ECIESKeyManager.get_ephem_key'),
        ('key generation', K + ':ECIESKeyManager._generate_ephem_key')],
    ['ECIES.encrypt', 'ECIES.decrypt'],
    '''Event log (time, manager, recipient, ephemeral key, iv) with the
    rules checked over whole logs; cipher texts opened independently.''',
    state=[('ephemeral keys', 'recipient -> (key, issue time)',
            K + ':ECIESKeyManager')])

prop(
    'C09', 'Load accepts fresh messages only',
    '''Unless told not to look, load refuses a message whose time stamp is
    more than the allowed age in the past or the allowed skew in the future
    (to a second) and accepts every one inside that window, whatever the date, distance or
    time zone; the refusal says which of the two it is. Told not to look, it
    accepts any time stamp.''',
    ['inputs', 'configurations'],
    '''instants over centuries x distances (edges of the window, multiples
    of days) x time zones x signed/encrypted''',
    NO_STABLE + 'They use one distance each way and the current date and zone.',
    [B, S, SET], [
        ('time check', B + ':verify_time'),
        ('limits', SET + ':MSG_TTL, FUTURE_TIME_TOLERANCE')],
    ['load'],
    'Frozen or real clock; verdict against integer arithmetic.')

prop(
    'C10', 'Malformed headers stop at the header',
    '''A frame with a missing or truncated header, a time stamp outside
    2010 to 3010 or a type no message has is refused with a header error and
    neither decrypted nor decoded; a proper header is read exactly as it was
    sent, and every frame inside those limits is let through.''',
    ['inputs'],
    'eleven byte headers, short frames, every type bucket, times, flags',
    NO_STABLE + 'They check one example per rule.',
    [B], [
        ('header', B + ':Message.unpack_header, deserialize_header')],
    ['load', 'deserialize_header'],
    'Recording decryption function; verdict against own parse.')

prop(
    'C11', 'Any bytes give a message or a message error',
    '''Whatever bytes are presented for loading, by a stranger, or
    signed by the expected sender, or encrypted for us, the outcome is a
    message of the announced kind that can be printed, compared and passed on
    (or fails to with an error of the library) or an exception of the
    library's message error family, never another exception; a failing
    decryption is reported as a decryption error.''',
    ['inputs', 'fault_sequences'],
    '''valid frames with junk of any CBOR type at any place, byte damage,
    truncation, and made up bytes; signed, unsigned or encrypted''',
    NO_STABLE + 'They present a few malformed frames.',
    [B, T, C, P, DP, DT, SER, S], [
        ('error wrapping', B + ':Message.deserialize'),
        ('serializer errors', SER + ':wrap_error'),
        ('errors', X)],
    ['load'],
    'Exception monitor over structured fuzzing of every kind.')

prop(
    'C12', 'Hello from an incompatible version is refused, others admitted',
    '''A Hello is admitted exactly if the version it announces is a
    valid semantic version of our own major and minor release and not a
    pre-release of its first (.0) patch, and is refused with a version error
    otherwise. Our own Hello announces our version, is admitted by ourselves,
    and a version exchanged on the way breaks the signature.''',
    ['inputs', 'configurations'],
    'pairs of own and announced versions, well and ill formed',
    NO_STABLE + 'They try a few versions against one own version.',
    [B], [
        ('version check', B + ':verify_version'),
        ('version trailer', B + ':Hello.serialize, '
         'deserialize_with_header')],
    ['load'],
    '''Child processes of eight own versions against forged trailers. One
    known finding (own pre-release of x.y.0).''')

prop(
    'C13', 'Nested messages have the declared kind, shape and presence',
    '''Where a message carries other messages, dumping and loading accept only
    messages of the kind the protocol declares for that place, a list where a
    list is declared and a single one elsewhere, and an explicit nothing only
    where that is allowed; anything else is refused with a field error, live
    or on the wire.''',
    ['inputs'],
    'every nested place of every kind x wrong kinds, shapes and triples',
    NO_STABLE + 'They put one wrong object into a few of the places.',
    [B, C, T], [
        ('slot definition', B + ':MessageSlotDefinition'),
        ('checks', B + ':Message.serialize_message, '
         'deserialize_message')],
    ['dump', 'load'],
    'Verdict against the pinned protocol table.')

prop(
    'C14', 'Ownership of a message chain is decided by the signatures alone',
    '''Validation of a chain accepts it exactly if the message and every
    message nested in it bears a valid signature, over its current content,
    of the party that the protocol says issues it (the provider or requestor
    named in the task, or Concent where it may), and fails with a signature
    error otherwise.''',
    ['inputs', 'fault_sequences'],
    '''every chain kind x every member x signer, signature, content, time,
    keys altered; live or loaded''',
    NO_STABLE + 'They alter one signer in a few kinds.',
    [T, C, B], [
        ('ownership', T + ':TaskMessage.validate_ownership, '
         'validate_ownership_chain'),
        ('who may sign', C + ':MSG_OWNERS of each class')],
    ['validate_ownership', 'validate_ownership_chain'],
    'Verdict against an own model from the protocol table.')

prop(
    'C15', 'A chain belongs to the parties one expects or is refused',
    '''Asked whether a chain belongs to a given provider, requestor and
    Concent, the library answers yes exactly if each given key is the one the
    task names and the whole chain is validly signed; a key that is not the
    task\'s is an ownership mismatch, then a bad signature a signature
    error.''',
    ['inputs', 'fault_sequences'],
    'chains intact or damaged x right, wrong, swapped, missing keys',
    NO_STABLE + 'They try one wrong key per role.',
    [T], [('verify owners', T + ':TaskMessage.verify_owners')],
    ['verify_owners'],
    'Verdict against an own model, live and loaded.')

prop(
    'C16', 'Every message of a chain names the task it is about',
    '''The task id, subtask id, provider, requestor and task assignment that a
    chained message reports are those of the task assignment nested in it,
    at whatever depth and through whichever of its nested messages, also
    when optional members are absent.''',
    ['inputs'],
    'every chain kind x presence of members x ids, live or loaded',
    NO_STABLE + 'They read the ids of complete chains.',
    [T, C], [('task values', T + ':TaskMessage._get_task_value')],
    ['task_id', 'subtask_id', 'task_to_compute', 'provider_id',
     'requestor_id'],
    'Comparison with the table\'s lookup order.')

prop(
    'C17', 'A task assignment loads only if it binds its requestor',
    '''Loading a task assignment succeeds exactly if the signature of
    the requestor's announced ethereum key over the provider's offer in it is
    right, its task and subtask ids are made from the requestor id it names,
    and price and size are integers; otherwise it is refused with a signature
    error or a field error that names the field.''',
    ['inputs', 'fault_sequences'],
    'assignments with one of these altered in many ways, or none',
    NO_STABLE + 'They alter one thing in one way.',
    [T, ID], [
        ('checks at load', T + ':TaskToCompute.deserialize_with_header'),
        ('ethereum signature', T + ':TaskToCompute.generate_ethsig, '
         'verify_ethsig'),
        ('ids', T + ':TaskToCompute.validate_taskid')],
    ['load'],
    'Verdict against an own verifier.')

prop(
    'C18', 'Acceptances, rejections and verdicts obey the task\'s terms',
    '''An acceptance is valid exactly with a payment time not after the
    message's own and at most fifteen minutes before it; a rejection exactly
    with a reason, with any attached Concent failure notice about the same
    task and subtask, and with such a notice when its reason is a forced
    resources failure (from a requestor, moreover, only reasons allowed with,
    or without, Concent); a Concent verdict exactly if both its parts carry
    the same task assignment. Load refuses invalid ones with a validation
    error and accepts valid ones, as asking the message does.''',
    ['inputs'],
    'deciding fields drawn around their limits',
    NO_STABLE + 'They try one value on each side.',
    [T, C, H], [
        ('acceptance', T + ':SubtaskResultsAccepted.is_valid'),
        ('rejection', T + ':SubtaskResultsRejected.is_valid'),
        ('verdict', C + ':VerdictReportComputedTask.is_valid')],
    ['load', 'is_valid', 'is_valid_for_requestor'],
    'Verdict against an own statement of the rules.')

prop(
    'C19', 'Promissory notes bind the promiser to exactly what they say',
    '''A promissory note\'s hash is the keccak of the fields laid out as the
    deposit contract does, its signature verifies exactly if the promiser\'s
    address signed that hash, and no malformed signature makes more than a
    "no". Notes of task assignments and of verification requests speak of
    that task\'s price, parties, subtask and contract, and changing any of
    these voids them.''',
    ['inputs', 'fault_sequences'],
    'notes, messages, signatures with one thing altered or none',
    NO_STABLE + 'They check a fixed note.',
    [PN, T, C], [
        ('note', PN + ':PromissoryNote'),
        ('of messages', T + ':TaskToCompute.verify_promissory_note'),
        ('of Concent', PN + ':PromissorySlotMixin')],
    ['sign', 'sig_valid', 'verify_*_promissory_note*'],
    'Own keccak / ecrecover.')

prop(
    'C20', 'A signed task header verifies until anything in it changes',
    '''A task header signed by a key verifies with that key, also after
    transport inside other messages, exactly as long as all of its fields
    are those that were signed; with another key, changed field or spoiled
    signature it does not. Its hash depends on every field but the signature
    and is that of an independent implementation.''',
    ['inputs', 'fault_sequences'],
    'headers x changed field x keys x transports',
    NO_STABLE + 'They change one field.',
    [DT], [('sign/verify/hash', DT + ':TaskHeader')],
    ['sign', 'verify', 'get_hash'],
    'Own CBOR / SHA-1 / ecrecover.')

prop(
    'C21', 'Containers hold what their fields allow, nothing else',
    '''A node description, peer, task header, statistics container or any
    other container declared in the same way is
    made exactly if every required field is given and every given value is
    within the rules of its field (type, length, range, port, address,
    version, boolean, nested structure) and there is no unknown field;
    otherwise an error that names the field is raised. Absent optional fields
    take their (unshared) defaults, and turning it into a plain dictionary
    gives exactly its fields, from which an equal one can be made.''',
    ['inputs'],
    'each container x each field x good, bad, boundary, missing, unknown',
    '''The tests try one good and a few bad values of a few fields; a rule
    loosened for one field or a boundary shifted passes.''',
    [D, DP, DT, DS, V], [
        ('container', D + ':Container.load_slots, to_dict'),
        ('node', DP + ':Node'), ('header', DT + ':TaskHeader'),
        ('statistics', DS), ('rules', V)],
    ['constructors', 'to_dict'],
    'Own table of fields and rules.')

prop(
    'C22', 'Fixed-key mappings admit their keys and values only',
    '''Whatever way a fixed-key or value-checking mapping is built, filled or
    changed by item, update or setdefault, it holds only keys it declares and
    values its checks accept, gives declared keys never set their default
    (freshly made, not shared between instances), and refuses everything else,
    attribute assignment included, without taking it in.''',
    ['inputs', 'histories'],
    '''ways of construction (dict, pairs, keywords, mixed) x histories of
    assignments, deletions and copies; library and made-up classes''',
    'The tests use one construction and one wrong key of a made-up class.',
    [D, T, DP, DS, C], [
        ('mappings', D + ':SetItemDict, FrozenDict, ValidatingDict')],
    ['constructors', '__setitem__'],
    'Plain model dict after every operation.')

prop(
    'C23', 'Ids are unique and bound to the key of who made them',
    '''Ids made from a key are version 1 UUIDs that end in the key's
    first six bytes, distinct however fast or often they are made and
    whatever the clock does; ids derived from an id belong to the same key.
    An id checks positively against exactly the keys with those first six
    bytes, given as bytes or hex, and what is no UUID against none.''',
    ['inputs', 'histories', 'schedules'],
    'keys x forms x sequences of makings under stuck or backward clocks',
    NO_STABLE + 'They make one id.',
    [ID], [('ids', ID)],
    ['generate_*', 'check_*'],
    'Plain hex arithmetic; uniqueness over the log of a case.')

prop(
    'C24', 'Masks narrow down and widen monotonically and match as defined',
    '''Growing a mask sets exactly so many further bits (as many as are
    left) and keeps those set, shrinking it clears exactly so many (as many
    as there are) and sets none, any bit may be chosen, and a negative number
    is an error and changes nothing; every view and conversion (bits, bytes,
    number, binary text) describes the same mask. An address matches exactly
    if no bit of the mask is set in its SHA-256; a task's mask has just as
    many bits as it takes to halve the potential workers down to the desired
    number.''',
    ['histories', 'inputs'],
    'histories on masks; addresses; network sizes and worker counts',
    '''The tests fix the random choice or check a couple of sizes; they do
    not follow a mask through histories nor vary the choice.''',
    [DM], [('mask', DM + ':Mask')],
    ['Mask'],
    '''Integer model; own SHA-256; exact arithmetic; a generous statistical
    bound on which bits are chosen.''')

prop(
    'C25', 'Message numbers and kinds correspond one to one, as published',
    '''A register never lets one number be registered twice (the first
    stays, the second leaves no trace), answers for number and kind what was
    registered and a key error for anything else, and registers do not share
    entries. Every number of the published protocol stands for its kind with
    its fields in order, its signing and encryption policy, its enumerations
    and its nested messages, and no other number is taken.''',
    ['histories', 'inputs'],
    'histories of registrations and look-ups; every entry of the protocol',
    '''The tests register two classes. The numbers and the fields of the
    library\'s kinds are compared by no test.''',
    [REG, B, T, C, P, R], [('register', REG + ':MessageRegister'),
                           ('entries', 'library.register decorators')],
    ['library'],
    'Pair of dicts as model; pinned protocol table.')

prop(
    'C26', 'The serializer keeps values and refuses what it cannot keep',
    '''Any plain value (numbers, text, bytes, booleans, nothing, lists,
    dictionaries, nested) comes back equal, of the same type and in the same
    order from its serialized form (a tuple as a list), which is that of an
    independent CBOR implementation; truncated bytes, bytes that are no value
    and values that have no form give a serialization error and nothing
    else.''',
    ['inputs'],
    'generated values, truncated and random bytes, foreign objects',
    NO_STABLE + 'They serialize a handful of values.',
    [SER], [('serializer', SER + ':dumps, loads, wrap_error')],
    ['dumps', 'loads'],
    'Differential against an own CBOR codec.')

prop(
    'C27', 'Times and amounts follow the agreed formulas',
    '''The allowed download time, verification time and deposits of both
    parties are what the protocol's formulas give (a minute plus size by rate
    rounded up to seconds; four Concent messaging times plus three downloads
    plus half the subtask's timeout; two and four times the task's, one and
    four times the subtask's price) for every size, rate, price, time and
    deadline. The protocol's time constants and message delays are the
    published ones.''',
    ['inputs'],
    'sizes, rates, prices, deadlines around limits and very large',
    NO_STABLE + 'They compare one or two values.',
    [H, CON, SET], [('formulas', H), ('constants', CON)],
    ['helpers', 'constants'],
    'Exact integer arithmetic.')

prop(
    'C28', 'Keys, addresses and signatures convert and verify faithfully',
    '''Public keys derived from private ones, ethereum addresses of
    public keys, hashes, signatures and their verification are those that
    secp256k1, keccak and the recoverable signature format prescribe; a
    signature verifies for its key and message only, and what is no key is
    refused. Conversions between bytes and hex and between 16 byte ids and 32 bytes invert each other, and text
    that is not an even number of hex digits is refused with a ValueError.''',
    ['inputs'],
    'generated and special keys, hashes, messages, hex, ids',
    NO_STABLE + 'They compare one key.',
    [K, U], [('keys', K + ':privtopub, ecdsa_sign, ecdsa_verify, ECCx'),
             ('conversions', U)],
    ['cryptography', 'utils'],
    'Own implementation on coincurve.')

prop(
    'C29', 'Loaded fields obey their rules and defaults',
    '''Enumerated fields of messages loaded, or constructed of decoded
    fields, hold only declared values (others are a field error that names field and value;
    nothing stays nothing, save where a default or a refusal is defined);
    nodes, peers, tasks, numbers, task headers and definitions carried in
    messages obey their own rules or the message is refused; list fields not
    given are fresh empty lists.''',
    ['inputs'],
    'every guarded field of every kind x good, missing, None, wrong values',
    NO_STABLE + 'They try a single wrong value for a few of the fields.',
    [B, T, C, P, DP], [
        ('enums', B + ':Message.deserialize_slot'),
        ('nodes', DP + ':NodeSlotMixin'), ('lists', P),
        ('definition', T + ':ComputeTaskDef')],
    ['load', 'constructors'],
    'Pinned table; frames from an independent encoder.')

prop(
    'C30', 'Looking at a message never changes it; loads share nothing',
    '''Dumping, hashing, verifying, comparing, printing or validating a
    message, in any order, leaves its content as it was. Two messages loaded
    from the same bytes, or constructed blank, share nothing that changing
    one would change in the other, also when loaded by concurrent threads.
    Making a message of decoded fields leaves what it was given unchanged.''',
    ['histories', 'schedules'],
    'random runs of operations; pairs of loads; threads',
    NO_STABLE + 'They compare single results and no state afterwards.',
    [B, T, C, P, S, D], [
        ('serialize', B + ':Message.serialize'),
        ('defaults', B + ':Message.load_slots')],
    ['dump', 'load', 'slots'],
    'Deep snapshots before and after; scribbling.')

prop(
    'C31', 'Two messages are equal exactly when nothing in them differs',
    '''Messages compare equal exactly if they are of the same kind with
    equal type, time stamp, signature and fields at every depth (and
    announced version, for Hello), whether or not they themselves travelled
    encrypted; never equal to a subclass's or another kind's message or to
    anything that is no message, and "unequal" is always the opposite.''',
    ['inputs'],
    'every kind x one change at some depth or none, both directions',
    NO_STABLE + 'They compare one pair.',
    [B], [('equality', B + ':Message.__eq__, Hello.__eq__')],
    ['==', '!='],
    'Own reading of both messages.')

prop(
    'C32', 'A file transfer token says what it allows for which file',
    '''A file transfer token allows upload, or download, exactly if its
    operation is that one; asked for a category of file it gives the first
    file listed of that category or nothing; files listed without a category
    are result files, and files with an unknown one are a field error. Its
    files travel as given.''',
    ['inputs'],
    'operations x lists of files x categories, live and loaded',
    NO_STABLE + 'They use one file list.',
    [C], [('token', C + ':FileTransferToken')],
    ['is_upload', 'is_download', 'get_file_info', 'load'],
    'Plain model of the list.')

prop(
    'C33', 'Test factories give sound messages that keep what was given',
    '''Each of the shipped factories and their named variants gives a message
    of its kind that keeps every value it was given at any depth, that is
    signed by the keys given for signing and verifies with them when
    complete, that survives dump and load, and whose chain is owned by the
    parties given. Cloning a message or overriding its time stamp changes
    nothing else.''',
    ['inputs', 'configurations'],
    'every factory x variant x overrides x keys',
    NO_STABLE + 'They are used by tests but only incidentally looked at.',
    [F + '/tasks.py', F + '/concents.py', F + '/helpers.py',
     F + '/p2p.py', F + '/datastructures/tasks.py'],
    [('signing', F + '/helpers.py'), ('variants', F + '/concents.py')],
    ['factories'],
    'Ownership model and own verification over all factories.')

prop(
    'C34', 'Validators accept exactly their values and name the fault',
    '''Each field validator (text, integer, positive integer, port, address,
    boolean, version, dictionary) accepts exactly the values of its kind and
    limits and otherwise raises a field error that carries the field\'s name
    and the value, whatever the value, and can be printed; all of the
    library\'s errors belong to its one family.''',
    ['inputs'],
    'values around the limits and of other kinds, for each validator',
    '''The tests try a couple of values per validator, none at most of the
    limits.''',
    [V, X], [('validators', V), ('errors', X)],
    ['validate_*'],
    'Own definitions (regular expressions, inet_pton, arithmetic).')

prop(
    'C35', 'A node says where it can be reached, the same to everyone it is sent to',
    '''A node holds the fields it was made with (empty containers of its own
    for those left out). It is a super node exactly if its public and its
    private address are both known and the same. Publishing fills each
    unknown public address or port with the private one and changes nothing
    else, however often it is done. Two nodes are equal exactly when every
    field is; sent in a message a node arrives equal, says the same of
    itself, and shares nothing with the one sent.''',
    ['inputs', 'histories'],
    'histories of changes, publications and questions; every message with nodes',
    '''One of the tests that run reliably looks at one super node; publication
    and equality are not looked at.''',
    [DP], [('publication', DP + ':Node.update_public_info'),
           ('super node', DP + ':Node.is_super_node'),
           ('content', DP + ':Node.to_dict, Node.__eq__')],
    ['Node', 'update_public_info', 'is_super_node', '==', 'to_dict'],
    'Model is a plain dict of the thirteen fields and their defaults.')

prop(
    'C36', 'A new message holds exactly what it was made with, and the present time',
    '''A message of any kind made with some of its fields holds each field
    given, whatever its value (also 0, the empty text and False), and the
    documented blank value for each one left out or None; fields given as
    wire pairs take precedence over keywords. Without a header it is of its
    own kind, not encrypted, and bears the current second in UTC as an
    integer, and can at once be loaded by its recipient; a header or
    signature given is kept. Unknown fields are refused with AttributeError,
    at construction and later. Setting the encryption flag changes nothing
    else.''',
    ['inputs', 'configurations'],
    'every kind x subsets of fields x ways of giving x moments',
    NO_STABLE + 'They never leave out most of the fields or move the clock far.',
    [B, T, C, P, R], [('construction', B + ':Message.__init__'),
                      ('pairs', B + ':Message.load_slots'),
                      ('flag', B + ':Message.encrypted')],
    ['Message(...)', 'header', 'sig', 'encrypted', 'repr'],
    'Blank values and fields are a pinned table; time is controlled.')
