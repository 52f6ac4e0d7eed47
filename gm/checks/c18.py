"""Semantic rules of acceptances, rejections and verdicts."""
from golem_messages import exceptions, shortcuts
from golem_messages.message import concents, tasks

from gm import chain, gen, spec
from gm.core import Scenario
from gm.crowd import crowd

PROPERTY = 'C18'
RULE = ('A case builds an acceptance, rejection or verdict with the deciding'
        ' fields drawn around their limits, asks is_valid (and'
        ' is_valid_for_requestor) on the live message and load() on its'
        ' frame, and compares them to an own statement of the rules.'
        ' Distinct: (rule, deciding values, verdict).')
REASON = tasks.SubtaskResultsRejected.REASON


def maker_for(ctx, **kw):
    rng = ctx.rng
    return gen.Maker(rng, cast=kw.pop('cast', None) or gen.Cast(rng),
                     sign='mixed', anchor=True,
                     ts=rng.randint(1500000000, 1900000000), **kw)


def judge(ctx, maker, msg, want, label, mech):
    """Live and over the wire."""
    def live():
        return msg.is_valid()

    def loaded():
        msg.sig = None
        key = rng.choice([maker.cast.requestor, maker.cast.concent])
        wire = shortcuts.dump(msg, key.priv, rng.choice(
            [None, maker.cast.provider.pub]))
        back = shortcuts.load(
            wire, maker.cast.provider.priv,
            rng.choice([key.pub, key.pub, None]), check_time=False)
        ctx.eq(gen.describe(back), gen.describe(msg), 'loaded differs',
               mech + ':content')
        if not want:
            return False        # loading was to say so
        return back.is_valid()
    rng = ctx.rng
    for mode, call in (('is_valid', live), ('load', loaded)):
        if want:
            ctx.check(call() is True, '%s refused %s' % (mode, label),
                      mech + ':refused')
            ctx.event('valid')
        else:
            ctx.raises(exceptions.ValidationError, call,
                       '%s accepted %s' % (mode, label), mech + ':accepted')
            ctx.event('invalid')


def acceptance(ctx):
    """payment_ts within the 15 minutes up to the message's timestamp."""
    rng = ctx.rng
    maker = maker_for(ctx)
    ts = maker.ts
    back = rng.choice([0, 1, 899, 900, 901, -1, -2, 10**6, -10**6, 450, 899.5,
                       900.5, -0.5, 0.0, rng.randint(-2000, 2000),
                       rng.randint(0, 900),
                       rng.choice([60, 3600, 86400, 604800, 2**16, 2**20])
                       * rng.choice([1, 1, 2, 10, 365, -1])
                       + rng.choice([0, 0, 1, 450, 900, 901, -1])])
    over = {}
    if rng.random() < 0.5:      # whenever the report was made
        over['report_computed_task'] = maker.make(
            2004, nested=True, _ts=ts + rng.choice([1, 30, 1000, 10**6, -1000,
                                                    -10**6]))
    msg = maker.make(2010, payment_ts=ts - back, _ts=ts, **over)
    want = 0 <= back <= 900
    if rng.random() < 0.3:      # asked before, about something else
        msg.payment_ts = ts - rng.choice([0, 901])
        try:
            msg.is_valid()
        except exceptions.ValidationError:
            pass
        msg.payment_ts = ts - back
    judge(ctx, maker, msg, want, 'a payment_ts %r s before' % back,
          'acceptance')
    ctx.distinct(back)
    ctx.sample((back, want))


def no_time(ctx):
    """Numbers no payment was ever made at: not even NaN is inside."""
    rng = ctx.rng
    maker = maker_for(ctx)
    value = rng.choice([float('nan'), -float('nan'), float('inf'),
                        -float('inf'), 1 << 1100, -1 << 1100, 2**64, -2**64,
                        10**5000, -10**5000, 1e300, -1e300])
    msg = maker.make(2010, payment_ts=value)
    label = 'a payment_ts of %s' % (
        value if isinstance(value, float) else hex(value)[:9])
    ctx.raises(exceptions.ValidationError, msg.is_valid, label,
               'acceptance:accepted')
    wire = shortcuts.dump(msg, maker.cast.requestor.priv, None)
    ctx.raises(exceptions.ValidationError, lambda: shortcuts.load(
        wire, None, maker.cast.requestor.pub, check_time=False),
        label + ' loaded', 'acceptance:accepted')
    ctx.event('invalid')
    ctx.distinct(label)


def pays_nothing(ctx):
    """Something that is no time at all is refused somehow."""
    rng = ctx.rng
    maker = maker_for(ctx)
    value = rng.choice([None, '', 'now', [], {}, b'1', [1]])
    msg = maker.make(2010, payment_ts=value)
    wire = shortcuts.dump(msg, maker.cast.requestor.priv, None)
    ctx.raises(exceptions.MessageError, lambda: shortcuts.load(
        wire, None, maker.cast.requestor.pub, check_time=False),
        'payment_ts %r loaded' % (value,), 'acceptance:no time')
    ctx.event('refused')
    ctx.distinct(repr(value))


def rejection_of(ctx):
    """(maker, message, rules say it is valid, label)"""
    rng = ctx.rng
    maker = maker_for(ctx, concent_enabled=rng.random() < 0.5)
    rct = maker.make(2004, nested=True)
    reason = rng.choice(list(REASON) + [REASON.ForcedResourcesFailure] * 2 +
                        [None])
    kind = rng.choice(['none', 'same', 'same', 'copy', 'task', 'subtask',
                       'both', 'swapped', 'ids only', 'no task',
                       'no subtask', 'no ids'])
    other = gen.Maker(rng, cast=maker.cast, sign='mixed', ts=maker.ts)
    mine = maker.ttc().compute_task_def
    if kind == 'none':
        fgtrf = None
    elif kind == 'same':
        fgtrf = maker.make(4011, nested=True)
    elif kind == 'copy':
        fgtrf = gen.clone(maker.make(4011, nested=True))
    else:
        ttc = other.ttc()
        ctd = ttc.compute_task_def
        if kind == 'task':
            ctd['subtask_id'] = mine['subtask_id']
        elif kind == 'subtask':
            ctd['task_id'] = mine['task_id']
        elif kind == 'swapped':
            ctd['task_id'] = mine['subtask_id']
            ctd['subtask_id'] = mine['task_id']
        elif kind in ('no task', 'no subtask', 'no ids'):
            ctd['task_id'] = mine['task_id'] if kind == 'no subtask' else ''
            ctd['subtask_id'] = \
                mine['subtask_id'] if kind == 'no task' else ''
        elif kind == 'ids only':
            # an entirely different assignment of the same subtask
            ctd['task_id'] = mine['task_id']
            ctd['subtask_id'] = mine['subtask_id']
        fgtrf = other.make(4011, nested=True)
    msg = maker.build(2011, {
        'report_computed_task': rct, 'force_get_task_result_failed': fgtrf,
        'reason': reason})
    same = kind in ('same', 'copy', 'ids only')
    want = reason is not None and (fgtrf is None or same) and not (
        reason is REASON.ForcedResourcesFailure and fgtrf is None)
    return maker, msg, want, (getattr(reason, 'name', None), kind)


def rejection(ctx):
    maker, msg, want, label = rejection_of(ctx)
    judge(ctx, maker, msg, want, 'a rejection %s/%s' % label, 'rejection')
    ctx.distinct(*label)
    ctx.sample((label, want))


ALLOWED = {True: {'VerificationNegative', 'ForcedResourcesFailure'},
           False: {'VerificationNegative', 'ResourcesFailure'}}


def by_requestor(ctx):
    maker, msg, want, label = rejection_of(ctx)
    if msg.reason is None:
        msg.reason = ctx.rng.choice(list(REASON))
        label = msg.reason.name, label[1]
        fgtrf = msg.force_get_task_result_failed
        same = label[1] in ('same', 'copy', 'ids only')
        want = (fgtrf is None or same) and not (
            msg.reason is REASON.ForcedResourcesFailure and fgtrf is None)
    concent = maker.ttc().concent_enabled
    want = want and label[0] in ALLOWED[concent]
    if want:
        ctx.check(msg.is_valid_for_requestor() is True,
                  'requestor\'s rejection %s/%s refused (concent %s)' % (
                      label + (concent,)), 'requestor:refused')
        ctx.event('valid')
    else:
        ctx.raises(exceptions.ValidationError, msg.is_valid_for_requestor,
                   'requestor\'s rejection %s/%s accepted (concent %s)' % (
                       label + (concent,)), 'requestor:accepted')
        ctx.event('invalid')
    ctx.distinct(label, concent)


def verdict(ctx):
    """Both halves of a verdict rest on one and the same TaskToCompute."""
    rng = ctx.rng
    maker = maker_for(ctx)
    msg = maker.make(4004)
    kind = rng.choice(['shared', 'copy', 'flag', 'other', 'sig', 'time',
                       'slot', 'deep', 'deep', 'offer sig', 'ids'])
    ttc = maker.ttc()
    mine = gen.clone(ttc)
    rct = msg.ack_report_computed_task.report_computed_task \
        if rng.random() < 0.5 else \
        msg.force_report_computed_task.report_computed_task
    want = True
    if kind != 'shared':
        holder = gen.clone(rct)
        if rct is msg.ack_report_computed_task.report_computed_task:
            msg.ack_report_computed_task.report_computed_task = holder
        else:
            msg.force_report_computed_task.report_computed_task = holder
        holder.task_to_compute = mine
        want = kind in ('copy', 'flag')
        if kind == 'flag':
            mine.encrypted = not mine.encrypted
        elif kind == 'other':
            holder.task_to_compute = gen.Maker(
                rng, cast=maker.cast, sign='mixed', ts=maker.ts).ttc()
        elif kind == 'sig':
            mine.sig = None if mine.sig else b'\0' * 65
        elif kind == 'time':
            h = mine.header
            mine.header = type(h)(h.type_, h.timestamp + 1, h.encrypted)
        elif kind == 'slot':
            slot = rng.choice(['price', 'size'])
            setattr(mine, slot, getattr(mine, slot) + 1)
        elif kind == 'ids':
            mine.compute_task_def['subtask_id'] += 'x'
        elif kind == 'offer sig':
            wtct = mine.want_to_compute_task
            wtct.sig = None if wtct.sig else b'\0' * 65
        elif kind == 'deep':
            wtct = mine.want_to_compute_task
            if rng.random() < 0.5:
                wtct.price += 1
            else:
                wtct.task_header.deadline = \
                    (wtct.task_header.deadline or 0) + 1
    judge(ctx, maker, msg, want, 'a verdict with TTCs: %s' % kind, 'verdict')
    ctx.distinct(kind)
    ctx.sample((kind, want))


RULED = {2010, 2011, 4004}


def others(ctx):
    """No other task message has anything to refuse."""
    rng = ctx.rng
    ids = [t for t in sorted(spec.TYPES)
           if spec.has_chain(t) and t not in RULED]
    type_id = ids[ctx.index % len(ids)]
    maker = maker_for(ctx)
    msg = maker.make(type_id)
    ctx.check(msg.is_valid() is True, '%s is not valid' % type(msg).__name__,
              'others')
    ctx.event('valid')
    ctx.distinct(type_id)


SCENARIOS = [
    Scenario('acceptance', acceptance, 320, 6000, need={
        'valid': 150, 'invalid': 150}),
    Scenario('no_time', no_time, 48, 2000, need={'invalid': 40}),
    Scenario('pays_nothing', pays_nothing, 20, 300, need={'refused': 20}),
    Scenario('rejection', rejection, 600, 12000, need={
        'valid': 150, 'invalid': 300}),
    Scenario('by_requestor', by_requestor, 600, 12000, need={
        'valid': 40, 'invalid': 200}),
    Scenario('verdict', verdict, 240, 8000, need={
        'valid': 60, 'invalid': 200}),
    Scenario('others', others, 63, 630, need={'valid': 63}),
    Scenario('crowd', crowd(rejection, by_requestor, verdict), 32, 1200, need={
        'crowds': 16, 'switches': 20}, max_s=120),
]
assert concents and chain
