"""The factories other projects test against."""
import random
import uuid

import factory
import factory.random

from golem_messages import cryptography, shortcuts
from golem_messages.factories import base as f_base
from golem_messages.factories import concents as f_concents
from golem_messages.factories import helpers as f_helpers
from golem_messages.factories import p2p as f_p2p
from golem_messages.factories import tasks as f_tasks
from golem_messages.factories.datastructures import p2p as f_dt_p2p
from golem_messages.factories.datastructures import tasks as f_dt_tasks

from gm import chain, gen, ref, spec
from gm.core import Scenario

PROPERTY = 'C33'
RULE = ('A case makes a message with one of the factories or their named'
        ' variants, with or without signatures and nested overrides, and'
        ' looks whether it is of the promised kind, keeps what was given,'
        ' is signed by the given keys, survives dump and load, and is'
        ' accepted by the ownership model. Distinct: (factory, variant,'
        ' what was given).')
MODULES = {'c': f_concents, 't': f_tasks, 'b': f_base, 'p': f_p2p}
# factory -> type id
MESSAGES = {
    'c.FileTransferToken': 4005, 'c.ForceReportComputedTask': 4001,
    'c.SubtaskResultsVerify': 4006, 'c.AckSubtaskResultsVerify': 4007,
    'c.SubtaskResultsSettled': 4008, 'c.ForceGetTaskResult': 4009,
    'c.AckForceGetTaskResult': 4010, 'c.ForceGetTaskResultFailed': 4011,
    'c.ForceGetTaskResultRejected': 4012, 'c.ForceGetTaskResultUpload': 4013,
    'c.ForceGetTaskResultDownload': 4014,
    'c.ForceSubtaskResultsResponse': 4016, 'c.ForceSubtaskResults': 4015,
    'c.ForceSubtaskResultsRejected': 4017,
    'c.ForcePaymentCommitted': 4019,
    'c.ForceReportComputedTaskResponse': 4021,
    'c.VerdictReportComputedTask': 4004, 'c.ClientAuthorization': None,
    'c.ServiceRefused': 4000, 't.WantToComputeTask': 2001,
    't.TaskToCompute': 2002, 't.CannotComputeTask': 2026,
    't.TaskFailure': 2015, 't.ReportComputedTask': 2004,
    't.AckReportComputedTask': 2029, 't.RejectReportComputedTask': 2030,
    't.SubtaskResultsAccepted': 2010, 't.SubtaskResultsRejected': 2011,
    'b.Hello': 0, 'p.WantToStartTaskSession': 1015, 'p.SetTaskSession': 1016,
}
# (factory, variant) -> what it promises: slot -> enum member / class / True
NAMED = {
    ('c.SubtaskResultsSettled', 'origin_acceptance_timeout'): {
        'origin': 'ResultsAcceptedTimeout'},
    ('c.SubtaskResultsSettled', 'origin_results_rejected'): {
        'origin': 'ResultsRejected'},
    ('c.ForceSubtaskResultsResponse', 'with_accepted'): {
        'subtask_results_accepted': 2010, 'subtask_results_rejected': None},
    ('c.ForceSubtaskResultsResponse', 'with_rejected'): {
        'subtask_results_accepted': None, 'subtask_results_rejected': 2011},
    ('c.ForceSubtaskResultsRejected', 'premature'): {
        'reason': 'RequestPremature'},
    ('c.ForceSubtaskResultsRejected', 'too_late'): {
        'reason': 'RequestTooLate'},
    ('c.ForcePaymentCommitted', 'to_provider'): {
        'recipient_type': 'Provider'},
    ('c.ForcePaymentCommitted', 'to_requestor'): {
        'recipient_type': 'Requestor'},
    ('c.ForceReportComputedTaskResponse', 'with_ack_report_computed_task'): {
        'reason': 'AckFromRequestor', 'ack_report_computed_task': 2029,
        'reject_report_computed_task': None},
    ('c.ForceReportComputedTaskResponse',
     'with_reject_report_computed_task'): {
        'reason': 'RejectFromRequestor', 'ack_report_computed_task': None,
        'reject_report_computed_task': 2030},
    ('t.RejectReportComputedTask', 'with_task_to_compute'): {
        'reason': 'SubtaskTimeLimitExceeded',
        'attached_task_to_compute': 2002, 'task_failure': None,
        'cannot_compute_task': None},
    ('t.RejectReportComputedTask', 'with_task_failure'): {
        'reason': 'GotMessageTaskFailure', 'task_failure': 2015,
        'attached_task_to_compute': None, 'cannot_compute_task': None},
    ('t.RejectReportComputedTask', 'with_cannot_compute_task'): {
        'reason': 'GotMessageCannotComputeTask', 'task_failure': None,
        'attached_task_to_compute': None, 'cannot_compute_task': 2026},
}
PLAIN = [(f, None) for f in sorted(MESSAGES)]
ALL = PLAIN + sorted(NAMED) + [('c.ForcePayment', 'with_accepted_tasks')]


def get(name, variant=None):
    module, cls = name.split('.')
    made = getattr(MODULES[module], cls + 'Factory')
    return getattr(made, variant) if variant else made


def seed(ctx):
    n = ctx.rng.getrandbits(32)
    factory.random.reseed_random(n)
    random.seed(n)


def pair():
    return cryptography.ECCx(None)


def round_trip(ctx, msg, label):
    """Unsigned ones are signed on the way."""
    me, them = pair(), pair()
    want = gen.content(msg)
    keep = msg.sig
    data = shortcuts.dump(msg, None if keep else me.raw_privkey,
                          them.raw_pubkey)
    back = shortcuts.load(data, them.raw_privkey,
                          None if keep else me.raw_pubkey)
    ctx.eq(type(back), type(msg), label, 'round trip')
    ctx.eq(gen.content(back), want, label + ' loaded', 'round trip')
    ctx.check(back == msg, label + ' loaded is not equal', 'round trip')
    ctx.event('round trips')


def made(ctx):
    """Every factory and named variant."""
    rng = ctx.rng
    seed(ctx)
    name, variant = ALL[ctx.index % len(ALL)]
    label = name + ('.' + variant if variant else '')
    make = get(name, variant)
    signer = pair() if rng.random() < 0.4 else None
    msg = make(sign__privkey=signer.raw_privkey) if signer else make()
    ctx.eq(type(msg).__name__, name.split('.')[1], label, 'kind')
    type_id = MESSAGES.get(name) or gen.type_id_of(msg)
    ctx.eq(gen.type_id_of(msg), type_id, label, 'kind')
    ctx.eq(msg.header.type_, type_id, label, 'kind')
    if signer:
        ctx.check(isinstance(msg.sig, bytes) and ref.signed_by(
            msg.sig, gen.message_hash(msg), signer.raw_pubkey),
            label + ' is not signed', 'sign')
        ctx.check(msg.verify_signature(signer.raw_pubkey) is True, label,
                  'sign')
        ctx.event('signed')
    else:
        ctx.check(msg.sig is None, label + ' is signed', 'sign')
    t = spec.TYPES[type_id]
    for slot, (nested, none, is_list) in t.msgs.items():
        value = getattr(msg, slot)
        for m in (value if isinstance(value, list) else [value]):
            ctx.check(m is None and none or m is not None
                      and gen.type_id_of(m) == nested,
                      '%s.%s is %r' % (label, slot, type(m)), 'nested')
    for slot, want in NAMED.get((name, variant), {}).items():
        value = getattr(msg, slot)
        if isinstance(want, str):
            ctx.check(value is gen.enum_class(type_id, slot)[want],
                      '%s has %s %r' % (label, slot, value), 'variant')
        elif want is None:
            ctx.check(value is None, '%s has a %s' % (label, slot),
                      'variant')
        else:
            ctx.check(value is not None and gen.type_id_of(value) == want,
                      '%s has no %s' % (label, slot), 'variant')
    for slot in t.enums:
        if name not in ('t.TaskFailure', 't.RejectReportComputedTask',
                        'c.ForceGetTaskResultRejected'):
            ctx.check(isinstance(getattr(msg, slot), gen.enum_class(
                type_id, slot)), '%s has no %s' % (label, slot), 'enum')
    if type_id in (4013, 4014):
        ctx.check(msg.file_transfer_token.is_upload is (type_id == 4013) and
                  msg.file_transfer_token.is_download is (type_id == 4014),
                  'token of ' + label, 'token')
    if type_id == 4007:
        ctx.eq([f['category'].value for f in msg.file_transfer_token.files],
               ['resources', 'results'], 'files of ' + label, 'token')
    if hasattr(msg, 'is_valid'):
        ctx.check(msg.is_valid() is True, label + ' is not valid', 'valid')
    round_trip(ctx, msg, label)
    ctx.distinct(label, bool(signer))
    ctx.sample(label)


REASONED = ['t.RejectReportComputedTask', 'c.ForceReportComputedTaskResponse',
            'c.ServiceRefused', 'c.ForceSubtaskResultsRejected',
            't.CannotComputeTask', 't.TaskFailure',
            'c.ForceReportComputedTaskResponse/with_ack_report_computed_task',
            'c.ForceReportComputedTaskResponse/'
            'with_reject_report_computed_task',
            't.RejectReportComputedTask/with_task_to_compute',
            't.RejectReportComputedTask/with_task_failure',
            't.RejectReportComputedTask/with_cannot_compute_task']


def given(ctx):
    """What one gives is kept, at any depth."""
    rng = ctx.rng
    seed(ctx)
    kind = rng.randrange(6)
    if kind == 0:
        name = rng.choice(REASONED)
        make = get(*name.split('/'))
        reason = rng.choice(list(gen.enum_class(
            MESSAGES[name.split('/')[0]], 'reason')))
        msg = make(reason=reason)
        ctx.check(msg.reason is reason, '%s(reason=%s) has %r' % (
            name, reason, msg.reason), 'given')
        what = (name, reason.name)
    elif kind == 1:
        price, size = rng.getrandbits(60) + 1, rng.getrandbits(40)
        owner = pair().raw_pubkey.hex()
        msg = f_tasks.ReportComputedTaskFactory(
            size=size, task_to_compute__price=price,
            task_to_compute__requestor_public_key=owner,
            task_to_compute__want_to_compute_task__price=7)
        ctx.eq((msg.size, msg.task_to_compute.price,
                msg.task_to_compute.requestor_id, msg.requestor_id,
                msg.task_to_compute.want_to_compute_task.price),
               (size, price, owner, owner, 7), 'given', 'given')
        what = 'depth'
    elif kind == 2:
        n = rng.choice([1, 2, 3])
        msg = f_concents.ForcePaymentFactory(
            subtask_results_accepted_list__generate=n)
        ctx.eq(len(msg.subtask_results_accepted_list), n, 'acceptances',
               'given')
        mine = [f_tasks.SubtaskResultsAcceptedFactory() for _ in range(n)]
        msg = f_concents.ForcePaymentFactory(
            subtask_results_accepted_list=mine)
        ctx.check(len(msg.subtask_results_accepted_list) == n and all(
            a is b for a, b in zip(msg.subtask_results_accepted_list, mine)),
            'acceptances', 'given')
        what = ('list', n)
    elif kind == 3:
        mine = f_tasks.SubtaskResultsAcceptedFactory()
        msg = f_concents.ForceSubtaskResultsResponseFactory.with_accepted(
            subtask_results_accepted=mine)
        ctx.check(msg.subtask_results_accepted is mine, 'given', 'given')
        mine = f_tasks.SubtaskResultsRejectedFactory()
        msg = f_concents.ForceSubtaskResultsResponseFactory.with_rejected(
            subtask_results_rejected=mine)
        ctx.check(msg.subtask_results_rejected is mine, 'given', 'given')
        what = 'response'
    elif kind == 4:
        text = gen.text(rng)
        msg = f_concents.VerdictReportComputedTaskFactory(
            arct_report_computed_task__package_hash=text)
        ctx.eq(msg.ack_report_computed_task.report_computed_task
               .package_hash, text, 'given', 'given')
        ctx.check(msg.is_valid() is True, 'verdict', 'given')
        rct = f_tasks.ReportComputedTaskFactory()
        msg = f_concents.VerdictReportComputedTaskFactory(
            force_report_computed_task__report_computed_task=rct)
        ctx.eq(gen.describe(msg.ack_report_computed_task
                            .report_computed_task), gen.describe(rct),
               'verdict', 'given')
        what = ('verdict', text)
    else:
        up, down = rng.random() < 0.5, rng.random() < 0.5
        msg = f_concents.FileTransferTokenFactory(upload=up, download=down)
        ctx.check(msg.is_download is down, 'token(upload=%s, download=%s)' % (
            up, down), 'given')
        what = ('token', up, down)
    round_trip(ctx, msg, str(what))
    ctx.distinct(what)


def leaf_value(ctx, maker, type_id, slot):
    rng = ctx.rng
    if slot == 'provider_public_key':       # the address follows from it
        return maker.cast.provider.hex
    if type_id != 2002:
        value = maker.slot_value(type_id, slot, maker.ts)
        if type_id == 2001 and value is None:   # has defaults of its own
            return {'num_subtasks': 1, 'concent_enabled': False}.get(slot)
        if (type_id, slot) == (2001, 'concent_enabled'):
            return bool(value)
        return value
    return {
        'package_hash': lambda: gen.hash_text(rng),
        'size': lambda: gen.integer(rng, 0, 2**40),
        'price': lambda: gen.integer(rng, 1, 2**70),
        'concent_enabled': lambda: rng.random() < 0.5,
        'resources_options': lambda: gen.mapping(rng),
        'requestor_id': lambda: maker.cast.requestor.hex,
        'requestor_public_key': lambda: maker.cast.requestor.hex,
        'provider_id': lambda: maker.cast.provider.hex,
        'task_id': maker.task_id, 'subtask_id': maker.task_id,
    }[slot]()


def leaves(type_id):
    if type_id == 2002:
        return ['package_hash', 'size', 'price', 'concent_enabled',
                'resources_options', 'requestor_id', 'requestor_public_key',
                'provider_id', 'task_id', 'subtask_id']
    t = spec.TYPES[type_id]
    return [s for s in t.slots if s not in t.msgs]


def anywhere(ctx):
    """Values given for random slots, at random depths."""
    rng = ctx.rng
    seed(ctx)
    name, variant = PLAIN[ctx.index % len(PLAIN)]
    type_id = MESSAGES[name]
    label = name
    if type_id is None:
        return
    maker = gen.Maker(rng, ts=rng.randint(1500000000, 1900000000), sign='all')
    kwargs, want = {}, {}
    for _ in range(rng.choice([1, 1, 2, 4])):
        path, at = (), type_id
        while True:
            deeper = [
                s for s, (n, none, is_list) in spec.TYPES[at].msgs.items()
                if not none and not is_list and n != 2001 and at != 4004]
            if not deeper or rng.random() < 0.25:
                break
            slot = rng.choice(deeper)
            path, at = path + (slot,), spec.TYPES[at].msgs[slot][0]
        choice = leaves(at)
        if not choice:
            continue
        slot = rng.choice(choice)
        if slot in ('operation',):
            continue
        value = leaf_value(ctx, maker, at, slot)
        kwargs['__'.join(path + (slot,))] = value
        want[path + (slot,)] = (at, value)
    if not kwargs:
        return
    how = 'plain'
    if type_id == 2002 and rng.random() < 0.5:
        how = 'signed'
        req, prov = pair(), pair()
        for k in ('requestor_id', 'requestor_public_key', 'provider_id'):
            kwargs.pop(k, None)
            want.pop((k,), None)
        msg = f_tasks.TaskToComputeFactory.with_signed_nested_messages(
            requestor_keys=req, provider_keys=prov, **kwargs)
        ctx.check(chain.chain_ok(msg, None), 'not owned', 'ttc:signed')
    else:
        msg = get(name)(**kwargs)
    for path, (at, value) in want.items():
        node = msg
        for step in path[:-1]:
            node = getattr(node, step)
        have = node.compute_task_def[path[-1]] \
            if at == 2002 and path[-1] in ('task_id', 'subtask_id') \
            else getattr(node, path[-1])
        ctx.eq(gen.canon(have), gen.canon(value), '%s(%s)' % (
            label, '__'.join(path)), 'given')
        ctx.event('kept')
        ctx.event('kept deep', len(path) > 1)
        ctx.distinct(label, path, how)


def assignments(ctx):
    """TaskToCompute: ids, ethereum signature, signed nested messages."""
    rng = ctx.rng
    seed(ctx)
    req, prov, eth = pair(), pair(), pair()
    r_hex, p_hex = req.raw_pubkey.hex(), prov.raw_pubkey.hex()
    make = f_tasks.TaskToComputeFactory
    ttc = make.with_signed_nested_messages(
        requestor_keys=req, provider_keys=prov)
    ctx.eq((ttc.requestor_public_key, ttc.requestor_id, ttc.provider_id,
            ttc.provider_public_key), (r_hex, r_hex, p_hex, p_hex), 'keys',
           'ttc:keys')
    wtct = ttc.want_to_compute_task
    ctx.eq(wtct.task_header.task_owner.key, r_hex, 'owner', 'ttc:keys')
    ctx.eq(wtct.task_header.task_id, ttc.task_id, 'task id', 'ttc:ids')
    ctx.check(chain.chain_ok(ttc, None), 'not owned', 'ttc:signed')
    ctx.check(ttc.validate_ownership_chain() is True, 'not owned',
              'ttc:signed')
    ctx.check(ttc.verify_owners(prov.raw_pubkey, req.raw_pubkey) is True,
              'not owned', 'ttc:signed')
    data = shortcuts.dump(ttc, None, prov.raw_pubkey)
    back = shortcuts.load(data, prov.raw_privkey, req.raw_pubkey)
    ctx.check(back == ttc, 'loaded differs', 'ttc:loaded')
    ctx.event('assigned')
    # ids follow the requestor
    other = make(requestor_public_key=r_hex)
    for id_ in (other.task_id, other.subtask_id, ttc.task_id,
                ttc.subtask_id, f_helpers.fake_golem_uuid(r_hex)):
        ctx.eq(uuid.UUID(id_).node, int(r_hex[:12], 16), 'node of ' + id_,
               'ttc:ids')
    ctx.check(other.task_id != ttc.task_id and other.task_id !=
              other.subtask_id, 'ids repeat', 'ttc:ids')
    # others sign than those whose pairs are given
    names = {'sign__privkey': req, 'want_to_compute_task__sign__privkey': prov,
             'want_to_compute_task__task_header__sign__privkey': req}
    signer = {k: pair() if rng.random() < 0.5 else v
              for k, v in names.items()}
    got = make.with_signed_nested_messages(
        requestor_keys=req, provider_keys=prov,
        **{k: v.raw_privkey for k, v in signer.items()
           if v is not names[k]})
    for obj, k in ((got, 'sign__privkey'),
                   (got.want_to_compute_task,
                    'want_to_compute_task__sign__privkey')):
        ctx.check(ref.signed_by(obj.sig, gen.message_hash(obj),
                                signer[k].raw_pubkey),
                  '%s is not by the key given' % k, 'ttc:signers')
    try:
        got.want_to_compute_task.task_header.verify(signer[
            'want_to_compute_task__task_header__sign__privkey'].raw_pubkey)
    except exceptions.InvalidSignature:
        ctx.fail('header is not signed by the key given', 'ttc:signers')
    ctx.event('signers')
    named = {'requestor_public_key': pair().raw_pubkey.hex(),
             'want_to_compute_task__provider_public_key':
                 pair().raw_pubkey.hex()}
    named = {k: v for k, v in named.items() if rng.random() < 0.6}
    got = make.with_signed_nested_messages(
        requestor_keys=req, provider_keys=prov, **named)
    ctx.eq((got.requestor_public_key,
            got.want_to_compute_task.provider_public_key),
           (named.get('requestor_public_key', r_hex),
            named.get('want_to_compute_task__provider_public_key', p_hex)),
           'keys given beside the pairs', 'ttc:signers')
    # who is known by another name than the key he signs with
    else_hex = pair().raw_pubkey.hex()
    for way, more in ((make, {'requestor_public_key': r_hex,
                              'sign__privkey': req.raw_privkey}),
                      (make.with_signed_nested_messages, {
                          'requestor_keys': req, 'provider_keys': prov})):
        got = way(requestor_id=else_hex, **more)
        ctx.eq((got.requestor_id, got.requestor_public_key),
               (else_hex, r_hex), 'names given', 'ttc:named')
        for id_ in (got.task_id, got.subtask_id):
            ctx.eq(uuid.UUID(id_).node, int(else_hex[:12], 16),
                   'node of ' + id_, 'ttc:ids')
        ctx.check(shortcuts.load(shortcuts.dump(got, None, None), None,
                                 req.raw_pubkey) == got, 'loaded differs',
                  'ttc:loaded')
        ctx.event('renamed')
    mine = make(task_id='mine', subtask_id='too')
    ctx.eq((mine.task_id, mine.subtask_id), ('mine', 'too'), 'ids given',
           'ttc:ids')
    # with a header given as well
    hdr = f_dt_tasks.TaskHeaderFactory(requestor_public_key=r_hex)
    for kwargs, ids in (
            ({}, None), ({'task_id': 'mine'}, ('mine', None)),
            ({'subtask_id': 'too'}, (None, 'too')),
            ({'task_id': 'mine', 'subtask_id': 'too'}, ('mine', 'too'))):
        for way in (make, make.with_signed_nested_messages):
            more = {'requestor_keys': req, 'provider_keys': prov} \
                if way is not make else {'requestor_public_key': r_hex}
            got = way(want_to_compute_task__task_header=hdr, **more,
                      **kwargs)
            ctx.eq(gen.canon(got.want_to_compute_task.task_header),
                   gen.canon(hdr), 'header given', 'ttc:ids')
            for want, have in zip(ids or (), (got.task_id, got.subtask_id)):
                ctx.check(want is None or have == want,
                          'id given: %r, kept: %r' % (want, have), 'ttc:ids')
            ctx.event('header given')
    # the ethereum signature
    for kwargs, pub in (
            ({}, None), ({'ethsig__keys': eth}, eth.raw_pubkey),
            ({'requestor_ethereum_public_key': eth.raw_pubkey.hex(),
              'ethsig__privkey': eth.raw_privkey}, eth.raw_pubkey)):
        msg = make(**kwargs)
        have = bytes.fromhex(msg.requestor_ethereum_public_key)
        ctx.check(pub is None or have == pub, 'key', 'ttc:ethsig')
        ctx.check(ref.signed_by(msg.ethsig, gen.message_hash(
            msg.want_to_compute_task), have), 'ethsig with %s' % list(
                kwargs), 'ttc:ethsig')
        ctx.check(msg.verify_ethsig() is True, 'ethsig', 'ttc:ethsig')
    # keys named without their private halves are kept as well
    named = {
        'requestor_ethereum_public_key': eth.raw_pubkey.hex(),
        'requestor_public_key': r_hex,
        'want_to_compute_task__provider_public_key': p_hex,
        'want_to_compute_task__price': 5,
        'want_to_compute_task__task_header__max_price': 6,
        'want_to_compute_task__task_header__task_id': 'hers',
        'price': 77, 'size': 0, 'package_hash': 'sha1:x'}
    for _ in range(3):
        kwargs = {k: v for k, v in named.items() if rng.random() < 0.6}
        kwargs.update(rng.choice([
            {}, {'sign__privkey': req.raw_privkey},
            {'want_to_compute_task__sign__privkey': prov.raw_privkey}]))
        for way in (make, make.with_signed_nested_messages):
            more = {}
            if way is not make and rng.random() < 0.5:
                more = {'provider_keys': prov}
            got = way(**kwargs, **more)
            for k, want in kwargs.items():
                if k in named:
                    have = got
                    for part in k.split('__'):
                        have = getattr(have, part)
                    ctx.eq(have, want, k, 'ttc:named')
                    ctx.event('named')
            if 'requestor_ethereum_public_key' in kwargs:
                ctx.check(got.ethsig is None or ref.signed_by(
                    got.ethsig, gen.message_hash(got.want_to_compute_task),
                    eth.raw_pubkey), 'signature of another key',
                    'ttc:ethsig')
    ctx.check(make(ethsig__disable=True).ethsig is None, 'disabled',
              'ttc:ethsig')
    for kwargs in ({'ethsig__disable': True, 'ethsig__keys': eth},
                   {'ethsig__privkey': b'1' * 32, 'ethsig__keys': eth},
                   {'sign__nothing': 1}):
        ctx.raises(factory.errors.InvalidDeclarationError,
                   lambda: make(**kwargs), str(kwargs), 'ttc:misuse')
    late = make.past_deadline()
    ctx.check(late.compute_task_def['deadline'] <
              late.timestamp < make().compute_task_def['deadline'],
              'deadlines', 'ttc:deadline')
    ctx.distinct(r_hex)


def smaller(ctx):
    """Headers, nodes, peers, files; and the helpers."""
    rng = ctx.rng
    seed(ctx)
    key = pair()
    hexed = key.raw_pubkey.hex()
    th = f_dt_tasks.TaskHeaderFactory(requestor_public_key=hexed,
                                      sign__privkey=key.raw_privkey)
    ctx.check(th.verify(key.raw_pubkey) is True, 'header unsigned', 'header')
    ctx.eq(th.task_owner.key, hexed, 'owner', 'header')
    ctx.eq(uuid.UUID(th.task_id).node, int(hexed[:12], 16), 'id', 'header')
    ctx.check(f_dt_tasks.TaskHeaderFactory().signature is None, 'signed',
              'header')
    ctx.raises(factory.errors.InvalidDeclarationError,
               lambda: f_dt_tasks.TaskHeaderFactory(sign__x=1), 'sign__x',
               'header')
    ctx.eq(len(th.mask.to_bytes()), 32, 'mask', 'header')
    peer = f_dt_p2p.Peer()
    ctx.check(type(peer['node']) is gen.dt_p2p.Node, 'peer', 'peer')
    ctx.eq(type(f_dt_p2p.Node()).__name__, 'Node', 'node', 'peer')
    info = f_concents.FileInfoFactory()
    ctx.eq(sorted(info), sorted(spec.FILE_INFO_FIELDS), 'file', 'file')
    # helpers
    gen.version_text(rng)
    version = f_helpers.fake_version()
    ctx.check(len(version.split('.')) == 3 and all(
        x.isdigit() for x in version.split('.')), version, 'version')
    pub = f_helpers.random_eth_pub_key()
    ctx.check(len(pub) == 128 and int(pub, 16) >= 0 and
              pub != f_helpers.random_eth_pub_key(), pub, 'key')
    addr = f_helpers.random_eth_address()
    ctx.check(len(addr) == 42 and addr[:2] == '0x' and
              int(addr, 16) >= 0, addr, 'address')
    maker = gen.Maker(rng, anchor=True)
    kinds = sorted(spec.TYPES)
    if rng.random() < 0.3:
        kinds = [k for k in kinds if not spec.TYPES[k].encrypt]
    msg = maker.make(rng.choice(kinds))
    if rng.random() < 0.6:
        msg.encrypted = not msg.encrypted
        ctx.event('flagged')
    twin = f_helpers.clone_message(msg)
    ctx.check(twin is not msg, 'not a copy', 'clone')
    ctx.eq(gen.describe(twin), gen.describe(msg), 'clone', 'clone')
    if rng.random() < 0.3:      # a header is whatever it was set to
        msg.header = type(msg.header)(
            rng.choice(kinds), msg.header.timestamp, msg.header.encrypted)
        twin.header = msg.header
    before = gen.describe(msg)
    ts = rng.randint(1500000000, 1900000000)
    f_helpers.override_timestamp(twin, ts)
    ctx.eq(twin.timestamp, ts, 'timestamp', 'clone')
    ctx.eq((twin.header.type_, twin.encrypted),
           (msg.header.type_, msg.encrypted), 'header', 'clone')
    ctx.eq(gen.describe(msg), before, 'clone changed the original', 'clone')
    ctx.event('smaller')
    ctx.distinct(hexed)


SCENARIOS = [
    Scenario('made', made, len(ALL) * 4, len(ALL) * 120, need={
        'round trips': len(ALL) * 4, 'signed': 40}),
    Scenario('given', given, 100, 4000, need={'round trips': 100}),
    Scenario('anywhere', anywhere, len(PLAIN) * 8, len(PLAIN) * 150, need={
        'kept': 200, 'kept deep': 100}),
    Scenario('assignments', assignments, 40, 1500, need={'assigned': 40}),
    Scenario('smaller', smaller, 60, 2000, need={'smaller': 60}),
]
