"""Promissory notes: who promised how much to whom for what."""
import uuid

from golem_messages import shortcuts
from golem_messages.datastructures import promissory

from gm import gen, ref
from gm.core import Scenario
from gm.crowd import crowd

PROPERTY = 'C19'
RULE = ('A case makes a promissory note (bare, of a TaskToCompute or of a'
        ' SubtaskResultsVerify), checks hash and signature against an own'
        ' keccak / ecrecover, then changes one thing of the note, of the'
        ' message or of the signature and compares the verdict to the'
        ' recovered signer; on the live and the loaded message. Distinct:'
        ' (kind of note, change, verdict).')


def amount(rng):
    return rng.choice([0, 1, 255, 256, 2**64, 2**128 - 1, 2**255, 2**256 - 1,
                       rng.getrandbits(256), rng.getrandbits(70)])


def some_uuid(rng):
    return str(uuid.UUID(int=rng.choice(
        [0, 1, 2**128 - 1, rng.getrandbits(128), rng.getrandbits(128)])))


def address(rng, cast):
    return rng.choice(list(cast.keys.values())).address


def verdict(call):
    """Never True for what is no signature at all; how that is said is not
    at stake here."""
    try:
        return call()
    except Exception as e:
        return type(e).__name__


def bare(ctx):
    rng = ctx.rng
    cast = gen.Cast(rng)
    fields = {
        'address_from': cast.requestor_eth.address,
        'address_to': address(rng, cast), 'amount': amount(rng),
        'subtask_id': some_uuid(rng), 'contract_address': address(rng, cast),
    }
    note = promissory.PromissoryNote(**fields)
    digest = ref.promissory_hash(
        fields['contract_address'], fields['address_from'],
        fields['address_to'], fields['amount'], fields['subtask_id'])
    ctx.eq(bytes(note.hash), digest, 'hash of a note', 'note:hash')
    signer = rng.choice([cast.requestor_eth] * 3 + [cast.other])
    sig = note.sign(signer.priv)
    ctx.check(len(sig) == 3 and sig.v in (27, 28) and len(sig.r) == 32
              and len(sig.s) == 32, 'shape of a signature', 'note:shape')
    ctx.eq(ref.promissory_signer(tuple(sig), digest), signer.address,
           'signature is not by the key', 'note:signer')
    want = signer is cast.requestor_eth
    for shape in (sig, list(sig), tuple(sig)):
        ctx.check(note.sig_valid(shape) is want, 'sig_valid: not %r' % want,
                  'note:verdict')
    ctx.event('signed' if want else 'signed by another')
    # anything else promised
    for name in fields:
        changed = dict(fields)
        if name == 'amount':
            changed[name] = (fields[name] ^ (1 << rng.randrange(256)))
        elif name == 'subtask_id':
            changed[name] = str(uuid.UUID(int=uuid.UUID(
                fields[name]).int ^ (1 << rng.randrange(128))))
        else:
            changed[name] = rng.choice([k.address for k in cast.keys.values()
                                        if k.address != fields[name]])
        other = promissory.PromissoryNote(**changed)
        got = verdict(lambda: other.sig_valid(sig))
        expected = ref.promissory_signer(
            tuple(sig), bytes(other.hash)) == changed['address_from']
        ctx.check(got is expected, 'signature of another note (%s): %r' % (
            name, got), 'note:other')
        ctx.check(bytes(other.hash) != digest, '%s is not covered' % name,
                  'note:other')
        ctx.event('changed')
    # nor is anybody else he
    own = fields['address_from']
    for odd in ('0X' + own[2:], '1x' + own[2:], 'zz' + own[2:], ' x' + own[2:],
                own.swapcase(), own[:2] + '0' * 40):
        other = promissory.PromissoryNote(**dict(fields, address_from=odd))
        if bytes(other.hash) == digest:
            ctx.check(not other.sig_valid(sig), 'signed by %s: said of %s' % (
                own, odd), 'note:promiser')
            ctx.event('odd names')
    ctx.distinct(fields['amount'], fields['subtask_id'], want)
    ctx.sample(fields)


def spelling(ctx):
    """The same subtask and addresses written otherwise."""
    rng = ctx.rng
    cast = gen.Cast(rng)
    sid = some_uuid(rng)
    fields = dict(address_from=cast.requestor_eth.address,
                  address_to=cast.other.address, amount=amount(rng),
                  subtask_id=sid, contract_address=cast.concent.address)
    note = promissory.PromissoryNote(**fields)
    fields['subtask_id'] = rng.choice([sid.upper(), sid.replace('-', ''),
                                       '{%s}' % sid])
    for name in ('address_to', 'contract_address'):
        if rng.random() < 0.5:
            fields[name] = fields[name].lower()
    ctx.eq(bytes(promissory.PromissoryNote(**fields).hash), bytes(note.hash),
           'spelling matters', 'note:spelling')
    ctx.event('spelled')
    ctx.distinct(fields['subtask_id'])


def garbage(ctx):
    rng = ctx.rng
    cast = gen.Cast(rng)
    note = promissory.PromissoryNote(
        cast.requestor_eth.address, cast.other.address, amount(rng),
        some_uuid(rng), cast.concent.address)
    for absent in (None, (), [], b'', ''):
        ctx.check(note.sig_valid(absent) is False, 'absent signature',
                  'garbage:absent')
    good = list(note.sign(cast.requestor_eth.priv))
    for bad in (good[:2], good + [0], [27], (27, good[1]),
                good * 2, 'abcd'):
        ctx.raises(TypeError, lambda: note.sig_valid(bad),
                   'signature of %d parts' % len(bad), 'garbage:parts')
    ctx.raises(TypeError, lambda: note.sig_valid(rng.choice([5, True, 1.5])),
               'signature that is a number', 'garbage:parts')
    digest = bytes(note.hash)
    for _ in range(6):
        v, r, s = good
        kind = rng.randrange(7)
        if kind == 6:
            # no v of the format, nor of any of its relatives
            v = rng.choice([v + 2, v + 4, v + 6, v - 24, v - 54, 26, 29, 34])
        elif kind == 0:
            v = 55 - v
        elif kind == 1:
            r = bytes([r[0] ^ 1]) + r[1:]
        elif kind == 2:
            s = s[:-1] + bytes([s[-1] ^ (1 << rng.randrange(8))])
        elif kind == 3:
            r, s = s, r
        elif kind == 4:
            r = s = b'\0' * 32
        else:
            v, r, s = 27, rng.getrandbits(256).to_bytes(32, 'big'), \
                rng.getrandbits(256).to_bytes(32, 'big')
        got = verdict(lambda: note.sig_valid((v, r, s)))
        want = kind != 6 and ref.promissory_signer(
            (v, r, s), digest) == note.address_from
        ctx.check((got is True) is want, 'spoilt signature (%d): %r' % (
            kind, got), 'garbage:accepted')
        ctx.event('spoilt')
        ctx.distinct(kind, str(got))


# --- in messages -----------------------------------------------------------

def notes_of(msg):
    """{slot: (from, to given contract, amount, subtask)} a message may
    carry."""
    if type(msg).__name__ == 'TaskToCompute':
        ttc = msg
        frm = ref.address(bytes.fromhex(ttc.requestor_ethereum_public_key))
        to = ttc.want_to_compute_task.provider_ethereum_address
        return {'promissory_note_sig': lambda c: (frm, to),
                'concent_promissory_note_sig': lambda c: (frm, c)}, ttc
    ttc = msg.subtask_results_rejected.report_computed_task.task_to_compute
    frm = ttc.want_to_compute_task.provider_ethereum_address
    return {'concent_promissory_note_sig': lambda c: (frm, c)}, ttc


def model(msg, slot, contract):
    notes, ttc = notes_of(msg)
    sig = getattr(msg, slot)
    if not sig:
        return False
    frm, to = notes[slot](contract)
    digest = ref.promissory_hash(contract, frm, to, ttc.price,
                                 ttc.compute_task_def['subtask_id'])
    return ref.promissory_signer(tuple(sig), digest) == frm


def verifier(msg, slot):
    return {'promissory_note_sig': lambda c: msg.verify_promissory_note(c),
            'concent_promissory_note_sig':
                lambda c: msg.verify_concent_promissory_note(c)}[slot]


def compare(ctx, msg, contract, label):
    wants = {}
    for slot in notes_of(msg)[0]:
        want = wants[slot] = model(msg, slot, contract)
        got = verdict(lambda: verifier(msg, slot)(contract))
        ctx.check(got is want, '%s of %s (%s): %r, should be %r' % (
            slot, type(msg).__name__, label, got, want),
            'message:' + slot)
        ctx.event('valid' if want else 'invalid')
    if len(wants) == 2:
        want = all(wants.values())
        got = verdict(lambda: msg.verify_all_promissory_notes(contract))
        ctx.check(got is want, 'verify_all (%s; %r): %r' % (
            label, wants, got), 'message:all')
        ctx.event('all' if want else 'not all')
    return tuple(sorted(wants.items()))


def message(ctx):
    rng = ctx.rng
    cast = gen.Cast(rng)
    maker = gen.Maker(rng, cast=cast, sign='none',
                      ts=rng.randint(1500000000, 1900000000))
    type_id = rng.choice([2002, 2002, 4006])
    maker.ttc(price=amount(rng)) if rng.random() < 0.5 else None
    msg = maker.make(type_id, **(
        {'concent_promissory_note_sig': None} if type_id == 4006 else {}))
    _, ttc = notes_of(msg)
    frm = cast.requestor_eth if type_id == 2002 else cast.provider_eth
    contract = rng.choice([cast.concent.address, cast.other.address])
    signer = rng.choice([frm, frm, frm, cast.requestor, cast.provider_eth,
                         cast.requestor_eth])
    kw = {'deposit_contract_address': contract, 'private_key': signer.priv}
    if type_id == 2002:
        how = rng.choice(['all', 'all', 'own', 'concent', 'crossed', 'none'])
    else:
        how = rng.choice(['concent', 'concent', 'concent', 'none'])
    before = gen.describe(ttc)
    if how == 'all':
        msg.sign_all_promissory_notes(**kw)
    elif how == 'own':
        msg.sign_promissory_note(**kw)
        ctx.check(msg.concent_promissory_note_sig is None, 'both signed',
                  'message:which')
    elif how == 'concent':
        msg.sign_concent_promissory_note(**kw)
        if type_id == 2002:
            ctx.check(msg.promissory_note_sig is None, 'both signed',
                      'message:which')
    elif how == 'crossed':
        msg.sign_all_promissory_notes(**kw)
        msg.promissory_note_sig, msg.concent_promissory_note_sig = \
            msg.concent_promissory_note_sig, msg.promissory_note_sig
    got = compare(ctx, msg, contract, how)
    if signer is frm and how == 'all':
        ctx.check(all(v for _, v in got), 'genuine notes refused',
                  'message:genuine')
        ctx.event('genuine')
    if type_id == 4006:
        ctx.eq(gen.describe(ttc), before, 'the task was changed',
               'message:which')
    compare(ctx, msg, cast.provider.address, how + ', other contract')
    # over the wire
    wire = shortcuts.dump(msg, cast.requestor.priv, cast.provider.pub)
    back = shortcuts.load(wire, cast.provider.priv, cast.requestor.pub,
                          check_time=False)
    ctx.eq(compare(ctx, back, contract, how + ', loaded'), got,
           'the wire changes the verdict', 'message:wire')
    ctx.event('loaded')
    # then something else is promised
    what = rng.randrange(5)
    if what == 0:
        ttc.price ^= 1 << rng.randrange(64)
    elif what == 1:
        ttc.compute_task_def['subtask_id'] = some_uuid(rng)
    elif what == 2:
        ttc.want_to_compute_task.provider_ethereum_address = \
            cast.other.address
    elif what == 3:
        ttc.requestor_ethereum_public_key = cast.requestor.hex
    else:
        ttc.compute_task_def['task_id'] = some_uuid(rng)
    compare(ctx, msg, contract, '%s, change %d' % (how, what))
    ctx.distinct(type_id, how, what, got)
    ctx.sample((type(msg).__name__, how, what, got))


SCENARIOS = [
    Scenario('bare', bare, 120, 5000, need={
        'signed': 50, 'signed by another': 10, 'changed': 500}),
    Scenario('spelling', spelling, 40, 1000, need={'spelled': 40}),
    Scenario('garbage', garbage, 60, 2000, need={'spoilt': 300}),
    Scenario('message', message, 240, 8000, need={
        'valid': 300, 'invalid': 400, 'all': 40, 'not all': 100,
        'genuine': 15, 'loaded': 200}),
    Scenario('crowd', crowd(bare, message), 32, 1200, need={
        'crowds': 16, 'switches': 20}, max_s=120),
]
