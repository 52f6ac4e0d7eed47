"""Independent model of the task message chain: accessors and ownership."""
from gm import gen, ref, spec


def accessor(msg, name):
    """What msg.<name> has to be, by the protocol table."""
    type_id = gen.type_id_of(msg)
    if type_id == 2002:
        if name == 'task_to_compute':
            return msg
        if name in ('task_id', 'subtask_id'):
            ctd = msg.compute_task_def
            return ctd.get(name) if ctd else None
        return getattr(msg, name)       # plain slots
    for slot in spec.TYPES[type_id].providers:
        inner = getattr(msg, slot)
        if inner is None:
            continue
        value = accessor(inner, name)
        if value:
            return value
    return None


def is_chain(msg):
    return spec.has_chain(gen.type_id_of(msg))


def owner_keys(msg, concent):
    ttc = accessor(msg, 'task_to_compute')
    known = {
        'provider': bytes.fromhex(ttc.want_to_compute_task
                                  .provider_public_key),
        'requestor': bytes.fromhex(ttc.requestor_public_key),
        'concent': concent,
    }
    return [known[o] for o in spec.TYPES[gen.type_id_of(msg)].owners]


def header_ok(ttc):
    th = ttc.want_to_compute_task.task_header
    if th.signature is None:
        return False
    fields = gen.plain_value(th)
    del fields['signature']
    import hashlib
    digest = hashlib.sha1(ref.cbor_enc(fields)).digest()
    return signed(th.signature, digest, bytes.fromhex(
        ttc.requestor_public_key))


def signed(sig, digest, pub):
    if not isinstance(sig, (bytes, bytearray)):
        return False
    return ref.signed_by(bytes(sig), digest, pub)


def owned(msg, concent):
    if gen.type_id_of(msg) == 2002 and not header_ok(msg):
        return False
    digest = gen.message_hash(msg)
    return any(signed(msg.sig, digest, k) for k in owner_keys(msg, concent))


def chain_ok(msg, concent):
    """Every task message of the tree signed by one of its owners."""
    if not owned(msg, concent):
        return False
    for slot in spec.TYPES[gen.type_id_of(msg)].slots:
        inner = getattr(msg, slot)
        if slot in spec.TYPES[gen.type_id_of(msg)].msgs and \
                inner is not None and not isinstance(inner, list) and \
                is_chain(inner) and not chain_ok(inner, concent):
            return False
    return True
