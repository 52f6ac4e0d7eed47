"""A signature is never replaced implicitly."""
import copy

from golem_messages import exceptions, shortcuts, utils

from gm import gen, ref, spec
from gm.core import Scenario
from gm.crowd import crowd

PROPERTY = 'C05'
RULE = ('Random histories of dump with / without key, copy_and_sign, explicit'
        ' reset, nesting and reload over messages of every type, against a'
        ' model of the signature each one must carry. Distinct: (type,'
        ' operation, signature state).')
TYPE_IDS = sorted(spec.TYPES)


def refused(ctx, msg, priv, pub):
    before = (gen.describe(msg), msg.encrypted)
    e = ctx.raises(exceptions.SignatureAlreadyExists,
                   lambda: shortcuts.dump(msg, priv, pub),
                   'dump() with a key on a signed %s' % type(msg).__name__,
                   'resign')
    ctx.check(isinstance(e, exceptions.SerializationError), 'exception kind')
    ctx.eq((gen.describe(msg), msg.encrypted), before,
           'refused dump() changed the message', 'refused')
    ctx.event('refused')


def history(ctx):
    rng = ctx.rng
    type_id = TYPE_IDS[ctx.index % len(TYPE_IDS)]
    t = spec.TYPES[type_id]
    maker = gen.Maker(rng, ts=rng.randint(1500000000, 1900000000),
                      sign=rng.choice(['all', 'mixed', 'none']))
    msg = maker.make(type_id, **({'sign': False} if type_id == 2002 else {}))
    ctx.check(msg.sig is None, 'a fresh message is signed')
    inner = [(m, m.sig) for p, m in gen.walk(msg) if p]
    if type_id == 0 and rng.random() < 0.6:
        msg._version = '2.24.%d' % rng.randrange(99)
    keys = list(maker.cast.keys.values())
    model = None           # None / bytes
    for step in range(rng.choice([4, 8, 14])):
        op = rng.choice(['dump key', 'dump key', 'dump', 'copy_and_sign',
                         'reset', 'reload', 'sign_message'])
        k = rng.choice(keys)
        r = rng.choice([None, rng.choice(keys)])
        state = 'none' if model is None else 'zero' \
            if model == ref.ZERO_SIG else 'real'
        ctx.distinct(type_id, op, state)
        rpub = r.pub if r else None
        if op == 'dump key' and model is not None:
            refused(ctx, msg, k.priv, rpub)
        elif op in ('dump key', 'dump'):
            wire = shortcuts.dump(msg, k.priv if op == 'dump key' else None,
                                  rpub)
            got = wire[11:76]
            if model is None:
                if op == 'dump key' and t.sign:
                    ctx.check(ref.signed_by(
                        got, gen.message_hash(
                            msg, getattr(msg, '_version', None)), k.pub),
                        'fresh signature is not the caller\'s', 'sign')
                else:
                    ctx.eq(got, ref.ZERO_SIG, 'placeholder', 'placeholder')
                model = got
            ctx.eq(got, model, 'the signature on the wire was replaced',
                   'replaced')
            ctx.event('dumps')
        elif op == 'copy_and_sign':
            before = gen.describe(msg)
            out = utils.copy_and_sign(msg, k.priv)
            ctx.eq(gen.describe(msg), before,
                   'copy_and_sign() changed the original', 'copy')
            if model is None:
                ctx.check(out is not msg, 'original returned', 'copy')
                ctx.check(msg.sig is None, 'original got signed', 'copy')
                ctx.check(out.verify_signature(k.pub),
                          'copy is not signed', 'copy')
                ctx.eq(gen.content(out), gen.content(msg), 'copy content',
                       'copy')
                ctx.eq(out.header, msg.header, 'copy header', 'copy')
                ctx.eq(getattr(out, '_version', None),
                       getattr(msg, '_version', None), 'copy version', 'copy')
                ctx.event('copies')
                # the copy is on its own from here on
                shortcuts.dump(out, None, rpub)
                refused(ctx, out, k.priv, rpub)
                ctx.check(msg.sig is None, 'original got signed', 'copy')
            else:
                ctx.eq(out.sig, model, 'copy_and_sign() replaced', 'replaced')
                ctx.eq(gen.describe(out), before, 'content', 'copy')
        elif op == 'reset':
            msg.sig = None
            model = None
        elif op == 'sign_message':
            # explicit overwrite
            msg.sign_message(k.priv)
            model = msg.sig
        elif op == 'reload' and model is not None:
            wire = shortcuts.dump(msg, None, None)
            try:
                msg = shortcuts.load(wire, None, None, check_time=False)
            except exceptions.MessageError:
                ctx.fail('dumped message does not load')
            ctx.eq(msg.sig, model, 'reload changed the signature', 'replaced')
            inner = [(m, s) for (_, m), (_, s) in zip(
                [x for x in gen.walk(msg) if x[0]], inner)]
        ctx.eq(msg.sig, model, 'signature differs from the model after ' + op,
               'replaced')
        for m, s in inner:
            ctx.eq(m.sig, s, 'signature of a nested %s was touched by %s' % (
                type(m).__name__, op), 'nested')
            ctx.event('nested held')


def received(ctx):
    """Forwarding: a received message carries its author's signature on, also
    when the forwarder has a key of its own, nested or not."""
    rng = ctx.rng
    type_id = TYPE_IDS[ctx.index % len(TYPE_IDS)]
    maker = gen.Maker(rng, ts=1600000000)
    cast = maker.cast
    msg = maker.make(type_id, **({'sign': False} if type_id == 2002 else {}))
    wire = shortcuts.dump(msg, cast.provider.priv, cast.requestor.pub)
    got = shortcuts.load(wire, cast.requestor.priv, cast.provider.pub,
                         check_time=False)
    refused(ctx, got, cast.requestor.priv, cast.concent.pub)
    twin = copy.copy(got)
    refused(ctx, twin, cast.requestor.priv, None)
    out = shortcuts.dump(got, None, cast.concent.pub)
    ctx.eq(out[11:76], wire[11:76], 'forwarded signature', 'replaced')
    a = [m.sig for _, m in gen.walk(msg)]
    b = [m.sig for _, m in gen.walk(shortcuts.load(
        out, cast.concent.priv, cast.provider.pub, check_time=False))]
    ctx.eq(b, a, 'signatures at some depth changed', 'nested')
    ctx.event('forwards')
    ctx.distinct(type_id)


def failing(ctx):
    """A dump or signature that fails leaves no signature behind, and the
    message can be put right and sent by whomever."""
    rng = ctx.rng
    type_id = TYPE_IDS[ctx.index % len(TYPE_IDS)]
    t = spec.TYPES[type_id]
    maker = gen.Maker(rng, ts=rng.randint(1500000000, 1900000000),
                      sign=rng.choice(['all', 'mixed']))
    msg = maker.make(type_id, **({'sign': False} if type_id == 2002 else {}))
    keys = list(maker.cast.keys.values())
    tree = [m for _, m in gen.walk(msg)]
    sigs = [m.sig for m in tree]
    for _ in range(rng.choice([1, 2, 3])):
        k, r = rng.choice(keys), rng.choice([None] + keys)
        how = rng.choice(['content', 'content', 'key', 'copy', 'recipient'])
        if how == 'content':
            holder = rng.choice(tree)
            slots = [s for s in spec.TYPES[gen.type_id_of(holder)].slots]
            if not slots:
                continue
            slot = rng.choice(slots)
            old = getattr(holder, slot)
            setattr(holder, slot, object())
            try:
                shortcuts.dump(msg, rng.choice([None, k.priv]),
                               r.pub if r else None)
            except Exception:
                pass
            else:
                ctx.fail('an object was sent', 'failing:sent')
            setattr(holder, slot, old)
        elif how in ('key', 'copy'):
            bad = rng.choice([b'\0' * 32, b'x' * 33, 'x' * 32, b'\xff' * 32])
            try:
                if how == 'copy':
                    utils.copy_and_sign(msg, bad)
                elif t.sign:
                    shortcuts.dump(msg, bad, r.pub if r else None)
                else:
                    msg.sign_message(bad)
            except Exception:
                pass
            else:
                ctx.fail('signed with %r' % bad, 'failing:key')
        else:
            def broken(data):
                raise rng.choice([ValueError, KeyError, MemoryError])('no')
            if not t.encrypt:
                continue
            try:
                msg.serialize(sign_as=k.priv, encrypt_func=broken)
            except (ValueError, KeyError, MemoryError):
                pass
            else:
                ctx.fail('sent all the same', 'failing:sent')
            # it may have been signed by the one who asked
            ctx.check(msg.sig is None or (
                ref.signed_by(msg.sig, gen.message_hash(
                            msg, getattr(msg, '_version', None)), k.pub)
                if t.sign else msg.sig == ref.ZERO_SIG),
                'a foreign signature', 'failing:left')
            msg.sig = None
        ctx.eq([m.sig for m in tree], sigs, 'left behind by a failure (%s)'
               % how, 'failing:left')
        ctx.event('failures')
        ctx.distinct(type_id, how)
    k = rng.choice(keys)
    wire = shortcuts.dump(msg, k.priv, None)
    if t.sign:
        ctx.check(ref.signed_by(wire[11:76], gen.message_hash(
                            msg, getattr(msg, '_version', None)), k.pub),
                  'not the signature of who sent it', 'failing:afterwards')
    else:
        ctx.eq(wire[11:76], ref.ZERO_SIG, 'placeholder', 'placeholder')


SCENARIOS = [
    Scenario('failing', failing, 63 * 6, 63 * 120, need={'failures': 400}),
    Scenario('history', history, 63 * 16, 63 * 250, need={
        'refused': 300, 'dumps': 500, 'copies': 100, 'nested held': 1000}),
    Scenario('received', received, 63 * 6, 63 * 60, need={'forwards': 300}),
    Scenario('crowd', crowd(history), 32, 1200, need={
        'crowds': 16, 'switches': 20}, max_s=120),
]
