"""Nodes: what they say about where they can be reached."""
from golem_messages.datastructures import p2p
from golem_messages.message import base as mbase
from golem_messages.message import p2p as mp2p

from gm import gen, spec
from gm.core import Scenario
from gm.crowd import crowd

PROPERTY = 'C35'
RULE = ('A case builds nodes from generated fields, runs a history of changes'
        ' of single fields, publications (update_public_info) and questions'
        ' (is_super_node, equality, to_dict, repr) against a plain dict, or'
        ' sends the node in a message and asks again. Distinct: (fields'
        ' given, operations, verdicts).')
PAIRS = [('pub_addr', 'prv_addr'), ('pub_port', 'prv_port'),
         ('p2p_pub_port', 'p2p_prv_port'),
         ('hyperdrive_pub_port', 'hyperdrive_prv_port')]
DEFAULTS = {'prv_addresses': list, 'port_statuses': dict, 'nat_type': list}


def draw(rng, name):
    if name.endswith('addr'):
        return rng.choice([None, '1.2.3.4', '1.2.3.4', '10.0.0.1', '::1',
                           '0:0:0:0:0:0:0:1', '::1%1', '::1%eth0',
                           '::ffff:1.2.3.4', gen.ipaddr(rng)])
    if name.startswith('hyperdrive'):
        return rng.choice([None, 0, 1, gen.integer(rng)])
    if name.endswith('port'):
        return rng.choice([None, 1, 65535, gen.port(rng)])
    if name == 'prv_addresses':
        return [gen.ipaddr(rng) for _ in range(rng.randrange(4))]
    if name == 'port_statuses':
        return {str(gen.port(rng)): gen.text(rng)
                for _ in range(rng.randrange(3))}
    if name == 'nat_type':
        return [gen.text(rng) for _ in range(rng.randrange(4))]
    if name == 'key':
        return rng.choice([None, '%0128x' % rng.getrandbits(512)])
    return gen.maybe(rng, gen.text(rng))


def agree(ctx, node, model, label):
    ctx.eq(gen.canon(node.to_dict()), gen.canon(model), label, 'content')
    for name, value in model.items():
        ctx.eq(gen.canon(getattr(node, name)), gen.canon(value),
               '%s: %s' % (label, name), 'content')
    want = (model['pub_addr'] is not None and model['prv_addr'] is not None
            and model['pub_addr'] == model['prv_addr'])
    ctx.check(node.is_super_node() is want, 'is_super_node is not %r (%s)' % (
        want, label), 'super')
    ctx.event('super' if want else 'not super')
    text = repr(node)
    ctx.check(isinstance(text, str) and repr(model['node_name']) in text and
              repr(model['key']) in text, 'repr %s' % text, 'repr')


def history(ctx):
    rng = ctx.rng
    given = {n: draw(rng, n) for n in spec.NODE_FIELDS
             if rng.random() < 0.75}
    model = {n: gen.clone_value(given[n]) if n in given else
             DEFAULTS.get(n, lambda: None)() for n in spec.NODE_FIELDS}
    node = p2p.Node(**gen.clone_value(given))
    other = p2p.Node(**gen.clone_value(given))
    agree(ctx, node, model, 'built')
    twin = dict(model)
    ops = []
    for _ in range(rng.randrange(1, 9)):
        op = rng.choice(['set', 'set', 'publish', 'publish', 'forget'])
        if op == 'publish':
            ctx.check(node.update_public_info() is None, 'returned something',
                      'publish')
            for pub, prv in PAIRS:
                if model[pub] is None:
                    model[pub] = model[prv]
            ctx.event('publications')
        else:
            name = rng.choice(rng.choice(PAIRS)) if rng.random() < 0.8 \
                else rng.choice(spec.NODE_FIELDS)
            value = None if op == 'forget' else draw(rng, name)
            setattr(node, name, gen.clone_value(value))
            model[name] = value
        ops.append(op)
        agree(ctx, node, model, 'after ' + op)
    # the other one heard nothing of it
    agree(ctx, other, twin, 'other')
    same = gen.canon(model) == gen.canon(twin)
    for x, y in ((node, other), (other, node)):
        ctx.check((x == y) is same and (x != y) is (not same),
                  'equality is not %r' % same, 'eq')
    ctx.event('equal' if same else 'different')
    ctx.distinct(tuple(sorted(given)), tuple(ops), same)


def one_field(ctx):
    """Every field alone makes a difference; nothing else does."""
    rng = ctx.rng
    name = spec.NODE_FIELDS[ctx.index % len(spec.NODE_FIELDS)]
    fields = {n: draw(rng, n) for n in spec.NODE_FIELDS}
    a = p2p.Node(**gen.clone_value(fields))
    b = p2p.Node(**gen.clone_value(fields))
    ctx.check(a == b and b == a and not (a != b), 'equal ones differ', 'eq')
    for i in range(20):
        value = draw(rng, name)
        if name in ('prv_addresses', 'nat_type') and i < 10:
            # the same ones in another order, or one of them twice
            value = list(fields[name])
            rng.shuffle(value)
            if rng.random() < 0.2:
                value += value[:1]
        if gen.canon(value) != gen.canon(fields[name]):
            break
    else:
        return
    setattr(b, name, value)
    ctx.check(a != b and b != a and not (a == b), '%s does not count' % name,
              'eq')
    setattr(b, name, gen.clone_value(fields[name]))
    ctx.check(a == b, 'equal again', 'eq')
    for odd in (None, 5, 'x', {}, a.to_dict(), object()):
        try:
            got = a == odd
        except TypeError:
            got = False
        ctx.check(got is False, 'equal to %r' % (odd,), 'eq')
    ctx.event('fields')
    ctx.distinct(name, gen.canon(fields[name]))


SENT = [(mbase.Hello, 'node_info'), (mp2p.WantToStartTaskSession, 'node_info'),
        (mp2p.WantToStartTaskSession, 'super_node_info'),
        (mp2p.SetTaskSession, 'node_info'),
        (mp2p.SetTaskSession, 'super_node_info')]


def sent(ctx):
    """A node is the same to whoever it is sent to."""
    from golem_messages import shortcuts
    rng = ctx.rng
    cls, slot = SENT[ctx.index % len(SENT)]
    fields = {n: draw(rng, n) for n in spec.NODE_FIELDS
              if rng.random() < 0.8}
    node = p2p.Node(**fields)
    if rng.random() < 0.4:
        node.update_public_info()
    model = gen.clone_value(node.to_dict())
    a, b = gen.distinct_keys(rng, 2)
    msg = cls(**{slot: node})
    ops = []
    for turn in range(rng.randrange(1, 5)):
        if turn:
            # changed in place, and sent once more
            op = rng.choice(['set', 'publish', 'add', 'none'])
            if op == 'publish':
                node.update_public_info()
                for pub, prv in PAIRS:
                    if model[pub] is None:
                        model[pub] = model[prv]
            elif op == 'add':
                node.prv_addresses.append('10.1.1.%d' % turn)
                model['prv_addresses'] += ['10.1.1.%d' % turn]
            elif op == 'set':
                name = rng.choice(spec.NODE_FIELDS)
                model[name] = draw(rng, name)
                setattr(node, name, gen.clone_value(model[name]))
            if rng.random() < 0.6:
                msg = cls(**{slot: node})
            else:
                msg.sig = None
            ops.append(op)
            ctx.event('sent again')
        wire = shortcuts.dump(msg, a.priv, b.pub)
        agree(ctx, node, model, 'after sending')
        got = getattr(shortcuts.load(wire, b.priv, a.pub), slot)
        ctx.check(isinstance(got, p2p.Node), 'no node', 'sent')
        agree(ctx, got, model, 'received')
        ctx.check(got == node and node == got, 'not equal', 'sent')
        got.update_public_info()
        got.prv_addresses.append('9.9.9.9')
        agree(ctx, node, model, 'after changes of the received one')
    ctx.event('sent')
    ctx.distinct(cls.__name__, slot, tuple(sorted(fields)), tuple(ops))


SCENARIOS = [
    Scenario('history', history, 700, 20000, need={
        'publications': 700, 'super': 200, 'not super': 1000, 'equal': 20,
        'different': 300}),
    Scenario('one_field', one_field, 260, 6000, need={'fields': 200}),
    Scenario('sent', sent, 200, 5000, need={'sent': 200, 'sent again': 200}),
    Scenario('crowd', crowd(history, sent), 32, 1200, need={
        'crowds': 16, 'switches': 20}, max_s=120),
]
