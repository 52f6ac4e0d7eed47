"""Live signatures follow the current content; nested ones survive travel."""
import golem_messages
from golem_messages import datastructures, exceptions, shortcuts
from golem_messages.datastructures import p2p as dt_p2p, stats

from gm import gen, ref, spec
from gm.core import Scenario
from gm.crowd import crowd

PROPERTY = 'C04'
RULE = ('Histories over live messages: sign, change one field at a random'
        ' depth, verify, undo, verify, and journeys of signed messages nested'
        ' into other messages over several encode/decode hops. A model keeps'
        ' what was signed. Distinct: (type, depth of the change, slot).')
TYPE_IDS = sorted(spec.TYPES)
SIGNED = [t for t in TYPE_IDS if spec.TYPES[t].sign]


def verdict(msg, pub):
    try:
        return msg.verify_signature(pub)
    except exceptions.InvalidSignature:
        return False


def changed_value(ctx, maker, type_id, slot, old):
    """Another value that the slot can hold."""
    rng = ctx.rng
    t = spec.TYPES[type_id]
    if slot in t.msgs:
        nested, allow_none, is_list = t.msgs[slot]
        other_ts = maker.ts - rng.randint(1, 10**6)
        if is_list:
            kind = rng.randrange(3)
            if kind == 0:
                return list(old) + [
                    maker.make(nested, nested=True, _ts=other_ts)]
            if kind == 1 and len(old) > 1:
                return list(old[1:])
            return list(old[:-1]) + [
                maker.make(nested, nested=True, _ts=other_ts)]
        if nested == 2002:
            return maker.ttc(fresh=True)
        return maker.make(nested, nested=True, _ts=other_ts)
    for _ in range(50):
        if type_id == 2002:
            new = {
                'compute_task_def': lambda: type(old)(dict(
                    old, deadline=old['deadline'] + 1)),
                'size': lambda: old + 1, 'price': lambda: old - 1,
                'concent_enabled': lambda: not old,
            }.get(slot, lambda: gen.freeform(rng))()
        else:
            new = maker.slot_value(type_id, slot, maker.ts)
        if ref.cbor_enc(gen.plain_value(new)) != \
                ref.cbor_enc(gen.plain_value(old)):
            return new
    return None


def edit(ctx):
    """Any single change, at any depth, invalidates; undoing it restores."""
    rng = ctx.rng
    type_id = TYPE_IDS[ctx.index % len(TYPE_IDS)]
    maker = gen.Maker(rng, ts=rng.randint(1500000000, 1900000000))
    msg = maker.make(type_id, **({'sign': False} if type_id == 2002 else {}))
    author = maker.cast.keys[maker.role_for(type_id)]
    msg.sign_message(author.priv)
    ctx.check(ref.signed_by(msg.sig, gen.message_hash(msg), author.pub),
              'sign_message() signed something else', 'sign')
    ctx.check(verdict(msg, author.pub) is True, 'own signature rejected')
    ctx.check(verdict(msg, maker.cast.other.pub) is False or
              maker.cast.other is author, 'verifies with another key')
    sig = msg.sig
    spots = []
    for path, m in gen.walk(msg):
        tid = gen.type_id_of(m)
        for slot in spec.TYPES[tid].slots:
            spots.append((path, m, tid, slot))
        if path:
            spots.append((path, m, tid, '<sig>'))
        spots.append((path, m, tid, '<type>'))
        spots.append((path, m, tid, '<time>'))
    for path, m, tid, slot in rng.sample(spots, min(8, len(spots))):
        if slot == '<sig>':
            old = m.sig
            m.sig = ref.sign(maker.cast.other.priv, b'?') \
                if rng.random() < 0.5 or old is None else \
                bytes([old[0] ^ 1]) + old[1:]
        elif slot == '<time>':
            old = m.header
            m.header = datastructures.MessageHeader(
                old.type_, old.timestamp + rng.choice(
                    [1, -1, 86400, 2**rng.randrange(8, 63),
                     -2**rng.randrange(8, 30)]),
                old.encrypted)
        elif slot == '<type>':
            old = m.header
            m.header = datastructures.MessageHeader(
                rng.choice([old.type_ + 1, old.type_ ^ 2**rng.randrange(16)]),
                old.timestamp, old.encrypted)
        else:
            old = getattr(m, slot)
            new = changed_value(ctx, maker, tid, slot, old)
            if new is None and old is None:
                continue
            setattr(m, slot, new)
        ctx.check(verdict(msg, author.pub) is False,
                  'still verifies after %s of %s was changed at depth %d' % (
                      slot, spec.TYPES[tid].name, len(path)),
                  'stale:' + slot)
        ctx.event('edits')
        ctx.event('deep edits', bool(path))
        if slot == '<sig>':
            m.sig = old
        elif slot in ('<time>', '<type>'):
            m.header = old
        else:
            setattr(m, slot, old)
        ctx.eq(msg.sig, sig, 'signature bytes changed by verifying')
        ctx.check(verdict(msg, author.pub) is True,
                  'does not verify after the change was undone', 'undo')
        ctx.distinct(tid, slot, len(path))
    # inner edits of containers, in place
    inner(ctx, maker, msg, author)


def bulk(ctx):
    """A change anywhere in a content of any size."""
    rng = ctx.rng
    tid, slot = rng.choice([(1, 'rand_val'), (2015, 'err'),
                            (3008, 'options'), (2001, 'extra_data'),
                            (2004, 'extra_data'), (1015, 'conn_id')])
    maker = gen.Maker(rng, sign='none')
    size = rng.choice([4095, 4096, 2**16, 2**20, 2**20 + 9, 2**21 + 1,
                       5 * 2**20])
    blob = bytearray(rng.getrandbits(8 * 1024).to_bytes(1024, 'big')
                     * (size // 1024 + 1))[:size]
    msg = maker.make(tid, **{slot: [bytes(blob), 1]})
    author = maker.cast.provider
    msg.sig = None
    msg.sign_message(author.priv)
    ctx.check(ref.signed_by(msg.sig, gen.message_hash(msg), author.pub),
              'sign_message() signed something else', 'sign')
    for at in (0, size // 2, size - 1, rng.randrange(size),
               size - 1 - rng.randrange(min(size, 5000))):
        blob[at] ^= 1
        setattr(msg, slot, [bytes(blob), 1])
        ctx.check(verdict(msg, author.pub) is False,
                  'byte %d of %d changed unnoticed' % (at, size), 'large')
        blob[at] ^= 1
    setattr(msg, slot, [bytes(blob), 2])
    ctx.check(verdict(msg, author.pub) is False, 'change after %d bytes'
              ' unnoticed' % size, 'large')
    setattr(msg, slot, [bytes(blob), 1])
    ctx.check(verdict(msg, author.pub) is True, 'not verified when undone',
              'undo')
    ctx.event('bulk', 5)
    ctx.distinct('bulk', tid, size)


def poke(rng, value):
    """Change a value in place; returns how to undo that."""
    if isinstance(value, dt_p2p.Node):
        if rng.random() < 0.3:
            value.prv_addresses.append('10.1.1.1')
            return value.prv_addresses.pop
        name = rng.choice(['node_name', 'nat_type', 'port_statuses', 'key'])
        old = getattr(value, name)
        setattr(value, name, ['odd'] if isinstance(old, list) else
                {'odd': 1} if isinstance(old, dict) else (old or '') + '!')
        return lambda: setattr(value, name, old)
    if isinstance(value, stats.ProviderStats):
        old = value.pids_stats
        value.pids_stats = stats.PidStats(current=rng.getrandbits(60))
        return lambda: setattr(value, 'pids_stats', old)
    if type(value) is list and not any(
            hasattr(x, 'to_dict') or hasattr(x, 'slots') for x in value):
        if value and type(value[-1]) in (list, dict) and rng.random() < 0.5:
            return poke(rng, value[-1])
        value.append('odd')
        return value.pop
    if type(value) is dict:
        deeper = [v for v in value.values() if type(v) in (list, dict)]
        if deeper and rng.random() < 0.5:
            return poke(rng, rng.choice(deeper))
        value['odd one'] = 1
        return lambda: value.pop('odd one')
    return None


def inner(ctx, maker, msg, author):
    rng = ctx.rng
    for path, m in gen.walk(msg):
        tid = gen.type_id_of(m)
        for slot in spec.TYPES[tid].slots:
            value = getattr(m, slot)
            if tid in (1004, 1006) or slot in spec.TYPES[tid].msgs or \
                    rng.random() < 0.3:
                continue
            undo = poke(rng, value)
            if undo:
                ctx.check(verdict(msg, author.pub) is False,
                          'in-place change of %s of %s unnoticed' % (
                              slot, spec.TYPES[tid].name), 'stale:inner')
                undo()
                ctx.event('pokes')
                ctx.event('nodes', isinstance(value, dt_p2p.Node))
    for path, m in gen.walk(msg):
        tid = gen.type_id_of(m)
        if tid == 2002:
            ctd = m.compute_task_def
            old = ctd['resources']
            ctd['resources'] = list(old) + ['x']
            ctx.check(verdict(msg, author.pub) is False,
                      'in-place change of the task definition unnoticed',
                      'stale:inner')
            ctd['resources'] = old
            header = m.want_to_compute_task.task_header
            old = header.subtasks_count
            header.subtasks_count = old + 1
            ctx.check(verdict(msg, author.pub) is False,
                      'in-place change of the task header unnoticed',
                      'stale:inner')
            header.subtasks_count = old
            old = header.task_owner.node_name
            header.task_owner.node_name = (old or '') + '!'
            ctx.check(verdict(msg, author.pub) is False,
                      'in-place change of the task owner unnoticed',
                      'stale:inner')
            header.task_owner.node_name = old
            ctx.event('inner edits', 3)
            break
        if tid == 4005 and m.files:
            fi = rng.choice(m.files)
            old = fi['size']
            fi['size'] = 7 if old != 7 else 8
            ctx.check(verdict(msg, author.pub) is False,
                      'in-place change of a file info unnoticed',
                      'stale:inner')
            fi['size'] = old
            ctx.event('inner edits')
        if tid == 1004 and m.peers:
            p = rng.choice(m.peers)
            old = p['port']
            p['port'] = 1 if old != 1 else 2
            ctx.check(verdict(msg, author.pub) is False,
                      'in-place change of a peer unnoticed', 'stale:inner')
            p['port'] = old
            ctx.event('inner edits')
    ctx.check(verdict(msg, author.pub) is True, 'undo of inner edits', 'undo')


# how a task travels: type -> slot it is put into, by growing chains
PARENTS = {}
for _t, _d in spec.TYPES.items():
    for _s, (_n, _none, _list) in _d.msgs.items():
        PARENTS.setdefault(_n, []).append((_t, _s, _list))


def journey(ctx):
    """A signed message is received, nested, sent, received, nested again...
    Every signature made on the way stays verifiable from the outermost."""
    rng = ctx.rng
    cast = gen.Cast(rng)
    maker = gen.Maker(rng, cast=cast, ts=rng.randint(1500000000, 1900000000),
                      spread=300)
    type_id = rng.choice([2001, 2002, 2002, 4005, 1007])
    msg = maker.make(type_id, **({'sign': False} if type_id == 2002 else {}))
    made = []      # (inner type, author, sig, description)
    for hop in range(rng.choice([2, 3, 5, 8])):
        role = maker.role_for(type_id)
        author = cast.keys[role]
        receiver = cast.keys[rng.choice(['provider', 'requestor', 'concent'])]
        wire = shortcuts.dump(msg, author.priv,
                              receiver.pub if rng.random() < 0.6 else None)
        made.append((type_id, author, msg.sig, gen.describe(msg)))
        msg = shortcuts.load(wire, receiver.priv, author.pub,
                             check_time=False)
        seen = list(gen.walk(msg))
        for t, a, sig, desc in made:
            hits = [m for _, m in seen if m.sig == sig]
            ctx.check(hits, 'an inner %s lost its signature after %d hops' % (
                spec.TYPES[t].name, hop), 'journey:lost')
            for m in hits:
                ctx.check(verdict(m, a.pub) is True,
                          'inner %s no longer verifies after %d hops' % (
                              spec.TYPES[t].name, hop), 'journey:verify')
                ctx.eq(gen.describe(m), desc, 'inner message changed',
                       'journey:content')
                ctx.event('inner verified')
        for m in maker.keep:
            # those created on the way for other slots
            pass
        for path, m in seen[1:]:
            owner = [a for _, a, sig, _ in made if sig == m.sig]
            if not owner and m.sig not in (None, ref.ZERO_SIG):
                ok = [k for k in cast.keys.values() if verdict(m, k.pub)]
                ctx.check(ok, 'nested %s verifies with no party\'s key' % (
                    type(m).__name__), 'journey:verify')
        ctx.distinct(type_id, hop)
        options = PARENTS.get(type_id)
        if not options:
            break
        parent, slot, is_list = rng.choice(options)
        over = {slot: [msg] if is_list else msg}
        if parent == 2011:
            over['reason'] = gen.cls_of(2011).REASON.VerificationNegative
            over['force_get_task_result_failed'] = None
            if slot == 'force_get_task_result_failed':
                over = {slot: msg, 'reason': gen.cls_of(
                    2011).REASON.ForcedResourcesFailure}
                over['report_computed_task'] = maker.make(
                    2004, nested=True, task_to_compute=msg.task_to_compute)
        if parent == 4004:
            ack = msg if slot == 'ack_report_computed_task' else maker.make(
                2029, nested=True,
                report_computed_task=msg.report_computed_task)
            force = msg if slot != 'ack_report_computed_task' else maker.make(
                4001, nested=True,
                report_computed_task=msg.report_computed_task)
            over = {'ack_report_computed_task': ack,
                    'force_report_computed_task': force}
        if parent == 2002:
            over['task_header'] = None
            msg = maker.ttc(fresh=True, sign=False, want_to_compute_task=msg,
                            ethsig=ref.sign(cast.requestor_eth.priv,
                                            gen.message_hash(msg)))
        else:
            msg = maker.make(parent, **over)
        type_id = parent
    ctx.event('journeys')


def arbitrary(ctx):
    """Model check over random operation histories of one message."""
    rng = ctx.rng
    type_id = rng.choice(SIGNED)
    maker = gen.Maker(rng, ts=1600000000)
    msg = maker.make(type_id, **({'sign': False} if type_id == 2002 else {}))
    keys = list(maker.cast.keys.values())
    signed = None            # (author, hash) by the reference
    free = [s for s in spec.TYPES[type_id].slots
            if s not in spec.TYPES[type_id].msgs]
    for step in range(rng.choice([5, 10, 20])):
        op = rng.choice(['sign', 'edit', 'time', 'verify', 'hash'])
        if op == 'sign':
            author = rng.choice(keys)
            msg.sign_message(author.priv)
            signed = (author, gen.message_hash(msg))
        elif op == 'edit' and free:
            slot = rng.choice(free)
            new = changed_value(ctx, maker, type_id, slot, getattr(msg, slot))
            setattr(msg, slot, new)
        elif op == 'time':
            msg.header = datastructures.MessageHeader(
                msg.header.type_, msg.timestamp + rng.choice([0, 1]),
                rng.random() < 0.5)
        elif op == 'hash':
            ctx.eq(msg.get_short_hash(), gen.message_hash(msg),
                   'short hash differs from sha1(type, time, payload)',
                   'hash')
        if signed:
            now = gen.message_hash(msg)
            for k in (signed[0], rng.choice(keys)):
                want = k is signed[0] and now == signed[1]
                ctx.eq(bool(verdict(msg, k.pub)), want,
                       'verify_signature() disagrees with the model after '
                       '%s (step %d)' % (op, step), 'model')
                ctx.event('model verdicts')
        ctx.distinct(type_id, op, bool(signed))


def large(ctx):
    """Content of tens to hundreds of kilobytes is covered to its end."""
    rng = ctx.rng
    type_id = rng.choice([1, 3, 1004, 4005, 2015])
    maker = gen.Maker(rng, ts=rng.randint(1500000000, 1900000000))
    author = maker.cast.provider
    n = rng.choice([5000, 20000, 66000, 70000, 132000, 300000])
    if type_id == 1004:
        msg = maker.make(1004, peers=[gen.peer(rng)
                                      for _ in range(n // 400)])
    elif type_id == 4005:
        msg = maker.make(4005, files=[gen.file_info(rng)
                                      for _ in range(n // 150)])
    elif type_id == 2015:
        msg = maker.make(2015)
        msg.task_to_compute.compute_task_def['extra_data'] = {
            'a%d' % i: i for i in range(n // 8)}
    else:
        slot = {1: 'rand_val', 3: 'solution'}[type_id]
        msg = maker.make(type_id, **{slot: [
            'x' * n, b'y' * n, [rng.getrandbits(30) for _ in range(n // 5)],
            {str(i): i for i in range(n // 8)}][rng.randrange(4)]})
    msg.sign_message(author.priv)
    ctx.check(verdict(msg, author.pub) is True, 'large message, own key')
    size = len(ref.cbor_enc(gen.plain_slots(msg)))
    for at in (0.0, 0.3, 0.6, 0.9, 1.0, rng.random()):
        undo = nudge(msg, type_id, at)
        ctx.check(verdict(msg, author.pub) is False,
                  'a change at %d%% of %d bytes unnoticed' % (
                      100 * at, size), 'large')
        undo()
        ctx.event('large edits')
    ctx.check(verdict(msg, author.pub) is True, 'undo', 'undo')
    ctx.event('over 64 KiB', size > 1 << 16)
    ctx.distinct(type_id, n)


def nudge(msg, type_id, at):
    """Change one item at the given part of the content; returns an undo."""
    def item(seq):
        return min(len(seq) - 1, int(at * len(seq)))

    if type_id == 1004:
        p = msg.peers[item(msg.peers)]
        old = p['port']
        p['port'] = 1 if old != 1 else 2
        return lambda: p.__setitem__('port', old)
    if type_id == 4005:
        f = msg.files[item(msg.files)]
        old = f['size']
        f['size'] = old + 1 if isinstance(old, int) else 1
        return lambda: f.__setitem__('size', old)
    if type_id == 2015:
        d = msg.task_to_compute.compute_task_def['extra_data']
        k = list(d)[item(d)]
        d[k] += 1
        return lambda: d.__setitem__(k, d[k] - 1)
    slot = {1: 'rand_val', 3: 'solution'}[type_id]
    old = getattr(msg, slot)
    i = item(old)
    if isinstance(old, dict):
        k = list(old)[i]
        new = dict(old)
        new[k] += 1
    elif isinstance(old, list):
        new = old[:i] + [old[i] + 1] + old[i + 1:]
    elif isinstance(old, bytes):
        new = old[:i] + b'z' + old[i + 1:]
    else:
        new = old[:i] + 'z' + old[i + 1:]
    setattr(msg, slot, new)
    return lambda: setattr(msg, slot, old)


SCENARIOS = [
    Scenario('edit', edit, 63 * 20, 63 * 250, need={
        'edits': 3000, 'deep edits': 800, 'inner edits': 300, 'pokes': 300,
        'nodes': 20}),
    Scenario('journey', journey, 400, 6000, need={
        'journeys': 300, 'inner verified': 500}),
    Scenario('arbitrary', arbitrary, 500, 8000, need={
        'model verdicts': 2000}),
    Scenario('large', large, 40, 1000, need={
        'large edits': 200, 'over 64 KiB': 8}, max_s=120),
    Scenario('bulk', bulk, 24, 300, need={'bulk': 100}, max_s=60),
    Scenario('crowd', crowd(edit), 32, 1200, need={
        'crowds': 16, 'switches': 20}, max_s=120),
]
