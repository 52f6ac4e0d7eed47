#!/usr/bin/env python3
"""refactors.py OUTDIR — a copy of the package in which many places are
written differently but do the same; the checks have to stay quiet on it:

    python3 tools/refactors.py /tmp/refactored
    GM_REPO=/tmp/refactored bash check.sh C01

Nothing here is part of a check."""
import os
import shutil
import sys

EDITS = [
 ('message/base.py', """    delta = now - msgdt
    delta_future = msgdt - now
    logger.debug('msgdt %s Δ %s Δfuture %s', msgdt, delta, delta_future)
    if delta > settings.MSG_TTL:
""", """    too_new = msgdt > now + settings.FUTURE_TIME_TOLERANCE
    delta = now - msgdt
    delta_future = -delta
    logger.debug('msgdt %s age %s', msgdt, delta)
    if too_new:
        raise exceptions.MessageFromFutureError(
            "delta_future {} > {}".format(
                delta_future,
                settings.FUTURE_TIME_TOLERANCE
            ),
        )
    if settings.MSG_TTL < delta:
"""),
 ('message/base.py', """        )
    if delta_future > settings.FUTURE_TIME_TOLERANCE:
        raise exceptions.MessageFromFutureError(
            "delta_future {} > {}".format(
                delta_future,
                settings.FUTURE_TIME_TOLERANCE
            ),
        )


def verify_version(msg_version):
    try:
        theirs_v = semantic_version.Version(msg_version)
    except ValueError as e:
        raise exceptions.VersionMismatchError(
            "Invalid version received: {msg_version}".format(
                msg_version=msg_version,
            )
        ) from e
    ours_v = semantic_version.Version(golem_messages.__version__)
    spec_str = '>={major}.{minor}.0,<{next_minor}'.format(
        major=ours_v.major,
        minor=ours_v.minor,
        next_minor=ours_v.next_minor(),
    )
    spec = semantic_version.Spec(spec_str)
    if theirs_v not in spec:
""", """        )


def _parse_version(text):
    try:
        return semantic_version.Version(text)
    except ValueError as e:
        raise exceptions.VersionMismatchError(
            f"Invalid version received: {text}"
        ) from e


def _compatible_versions(ours):
    return semantic_version.Spec(
        f'>={ours.major}.{ours.minor}.0,<{ours.next_minor()}'
    )


def verify_version(msg_version):
    theirs_v = _parse_version(msg_version)
    ours_v = semantic_version.Version(golem_messages.__version__)
    if theirs_v not in _compatible_versions(ours_v):
"""),
 ('message/base.py', """        for key in kwargs:
            if getattr(self, key, None) is None:
                try:
                    setattr(self, key, kwargs[key])
                except AttributeError:
                    raise AttributeError(
                        "Can't set attribute `%s` on `%s`" % (
                            key, self.__class__.__name__))
""", """        for key, value in kwargs.items():
            if getattr(self, key, None) is not None:
                continue
            try:
                setattr(self, key, value)
            except AttributeError:
                raise AttributeError(
                    "Can't set attribute `%s` on `%s`" % (
                        key, self.__class__.__name__))
"""),
 ('message/base.py', """        if header is None:
            header = datastructures.MessageHeader(
                self._type,
                # On AppVeyorCI time.time() returns unreliable values thus
                # we use calendar.timegm() instead of time.time() to unify it.
                calendar.timegm(time.gmtime()),
                False,
            )
        self.header = header
        self.sig = sig
""", """        self.sig = sig
        self.header = self._fresh_header() if header is None else header

    def _fresh_header(self):
        # On AppVeyorCI time.time() returns unreliable values thus
        # we use calendar.timegm() instead of time.time() to unify it.
        now = calendar.timegm(time.gmtime())
        return datastructures.MessageHeader(self._type, now, False)
"""),
 ('message/base.py', """        return (
            self.__class__ is obj.__class__
            and self.header.type_ == obj.header.type_
            and self.timestamp == obj.timestamp
            and self.sig == obj.sig
            and self.slots() == obj.slots()
        )

    def __repr__(self):
        try:
            slots_ = self.slots()
        except exceptions.FieldError:
            slots_ = '<unserializable>'
        template""", """        if self.__class__ is not obj.__class__:
            return False
        if self.header.type_ != obj.header.type_:
            return False
        if self.sig != obj.sig or self.timestamp != obj.timestamp:
            return False
        return self.slots() == obj.slots()

    def __repr__(self):
        try:
            slots_ = self.slots()
        except exceptions.FieldError:
            slots_ = '<unserializable>'
        template"""),
 ('message/base.py', """        self.header = datastructures.MessageHeader(
            self.header.type_,
            self.header.timestamp,
            value,
        )

    def get_short""", """        self.header = self.header._replace(encrypted=value)

    def get_short"""),
 ('message/base.py', """        sha = hashlib.sha1()

        # We can't""", """        # We can't"""),
 ('message/base.py', """        hash_header = serializer.dumps(
            [self.header.type_, self.timestamp, ]
        )
        sha.update(hash_header)
        sha.update(payload or b'')
        return sha.digest()
""", """        hash_header = serializer.dumps(
            [self.header.type_, self.timestamp, ]
        )
        return hashlib.sha1(hash_header + (payload or b'')).digest()
"""),
 ('message/base.py', """        if self.sig is None:
            if sign_as and self.SIGN:
                self.sign_message(
                    private_key=sign_as,
                    msg_hash=self.get_short_hash(payload)
                )
            else:
                self._fake_sign()

        if self.encrypted:
            payload = encrypt_func(payload)

        return (
            self.serialize_header() +
            self.sig +
            payload
        )
""", """        if self.sig is None:
            self._sign_or_fake(sign_as, payload)

        body = encrypt_func(payload) if self.encrypted else payload
        return b''.join((self.serialize_header(), self.sig, body))

    def _sign_or_fake(self, key, payload):
        if not (key and self.SIGN):
            self._fake_sign()
            return
        self.sign_message(
            private_key=key,
            msg_hash=self.get_short_hash(payload)
        )
"""),
 ('message/base.py', """        if not isinstance(value, list):
            return False, self.serialize_message_single(key, value)
        return True, [self.serialize_message_single(key, msg) for msg in value]
""", """        if isinstance(value, list):
            out = []
            for msg in value:
                out.append(self.serialize_message_single(key, msg))
            return True, out
        return False, self.serialize_message_single(key, value)
"""),
 ('message/base.py', """            result = [
                self.deserialize_message_single(key, serialized_msg)
                for serialized_msg
                in value
            ]
            return result
""", """            return list(map(
                lambda one: self.deserialize_message_single(key, one),
                value,
            ))
"""),
 ('message/base.py', """        if not settings.MIN_TIMESTAMP < header.timestamp < \\
                settings.MAX_TIMESTAMP:
            raise""", """        if header.timestamp <= settings.MIN_TIMESTAMP \\
                or header.timestamp >= settings.MAX_TIMESTAMP:
            raise"""),
 ('message/base.py', """        if not msg or len(msg) <= cls.HDR_LEN + cls.SIG_LEN:
            raise""", """        shortest = cls.HDR_LEN + cls.SIG_LEN + 1
        if not msg or len(msg) < shortest:
            raise"""),
 ('message/base.py', """            try:
                value = slots_dict[name]
            except KeyError:
                value = None
            else:
                value = self.deserialize_slot(name, value)
            setattr(self, name, value)
""", """            if name in slots_dict:
                setattr(self, name,
                        self.deserialize_slot(name, slots_dict[name]))
            else:
                setattr(self, name, None)
"""),
 ('message/base.py', """        processed_slots = []
        for key in self.__slots__:
            if not self.valid_slot(key):
                continue
            value = getattr(self, key, None)
            value = self.serialize_slot(key, value)
            processed_slots.append([key, value])
        return processed_slots
""", """        return [
            [key, self.serialize_slot(key, getattr(self, key, None))]
            for key in self.__slots__ if self.valid_slot(key)
        ]
"""),
 ('message/base.py', """        return (not name.startswith('_')) \\
            and (name not in Message.__slots__) \\
            and (name in self.__slots__)
""", """        if name[:1] == '_' or name in Message.__slots__:
            return False
        return name in self.__slots__
"""),
 ('message/base.py', """        self.sig = b'\\0' * Message.SIG_LEN
""", """        self.sig = bytes(Message.SIG_LEN)
"""),
 ('message/base.py', """        if isinstance(self.klass, str):
            m, c = self.klass.rsplit('.', 1)
            module = importlib.import_module(m)
            return getattr(module, c)
        return self.klass
""", """        if not isinstance(self.klass, str):
            return self.klass
        module_name, _, class_name = self.klass.rpartition('.')
        return getattr(importlib.import_module(module_name), class_name)
"""),
 ('message/base.py', """        if not self._version == getattr(obj, '_version', None):
            return False
        return super().__eq__(obj)
""", """        return self._version == getattr(obj, '_version', None) \\
            and super().__eq__(obj)
"""),
 ('message/base.py', """        payload = data[cls.SIG_LEN:]

        if header.encrypted:
            try:
                payload = decrypt_func(payload)
                logger.debug("Decrypted. payload=%r", payload)
            except exceptions.MessageError:
                raise
            except Exception as e:
                raise exceptions.DecryptionError(
                    "Unknown decryption problem"
                ) from e
        slots = serializer.loads(payload)
""", """        payload = cls._plain(header, data[cls.SIG_LEN:], decrypt_func)
        slots = serializer.loads(payload)
"""),
 ('message/base.py', """    def load_slots(self, slots):
""", """    @staticmethod
    def _plain(header, payload, decrypt_func):
        if not header.encrypted:
            return payload
        try:
            payload = decrypt_func(payload)
        except exceptions.MessageError:
            raise
        except Exception as e:
            raise exceptions.DecryptionError(
                "Unknown decryption problem"
            ) from e
        logger.debug("Decrypted. payload=%r", payload)
        return payload

    def load_slots(self, slots):
"""),
 ('cryptography.py', """    if not pk.format(compressed=False) == b'\\04' + pubkey:
        raise exceptions.InvalidSignature()
    return True
""", """    recovered = pk.format(compressed=False)[1:]
    if recovered == pubkey:
        return True
    raise exceptions.InvalidSignature()
"""),
 ('cryptography.py', """        while True:
            super().__init__(pubkey_x=pubkey_x, pubkey_y=pubkey_y,
                             raw_privkey=raw_privkey, curve=self.curve)
            # XXX: when raw_privkey is generated by pyelliptic it sometimes
            #      has 31 bytes so we try again!
            if raw_privkey is None and len(self.raw_privkey) != 32:
                continue
            if not self.has_valid_keys():
                raise exceptions.CryptoError('Invalid privkey and/or pubkey')
            break  # init ok
""", """        usable = False
        while not usable:
            super().__init__(pubkey_x=pubkey_x, pubkey_y=pubkey_y,
                             raw_privkey=raw_privkey, curve=self.curve)
            # XXX: when raw_privkey is generated by pyelliptic it sometimes
            #      has 31 bytes so we try again!
            usable = raw_privkey is not None or len(self.raw_privkey) == 32
        if not self.has_valid_keys():
            raise exceptions.CryptoError('Invalid privkey and/or pubkey')
"""),
 ('cryptography.py', """        key = b""
        hash_blocksize = 64
        reps = ((key_len + 7) * 8) / (hash_blocksize * 8)
        counter = 0
        while counter <= reps:
            counter += 1
            ctx = hashlib.sha256()
            ctx.update(struct.pack('>I', counter))
            ctx.update(key_material)
            ctx.update(s1)
            key += ctx.digest()
        return key[:key_len]
""", """        chunks = []
        for counter in range(1, key_len // 32 + 2):
            chunks.append(hashlib.sha256(
                struct.pack('>I', counter) + key_material + s1).digest())
        return b''.join(chunks)[:key_len]
"""),
 ('cryptography.py', """        if self.last_cleanup_time < time.time() - self.timeout:
            ECIESKeyManager._generate_ephem_key.cache_clear()
            self.last_cleanup_time = time.time()
""", """        now = time.time()
        if now - self.timeout > self.last_cleanup_time:
            ECIESKeyManager._generate_ephem_key.cache_clear()
            self.last_cleanup_time = now
"""),
 ('cryptography.py', """        msg = ephem_pubkey + iv + ciphertext

        tag = pyelliptic.hmac_sha256(mac_key, msg[1 + 64:] + shared_mac_data)
        assert len(tag) == 32

        msg += tag
        assert len(msg) == self.OVERHEAD + len(data)

        return msg
""", """        protected = iv + ciphertext
        tag = pyelliptic.hmac_sha256(mac_key, protected + shared_mac_data)
        assert len(tag) == 32

        out = b''.join([ephem_pubkey, protected, tag])
        assert len(out) == self.OVERHEAD + len(data)
        return out
"""),
 ('cryptography.py', """        if len(sig) != 65:
            raise exceptions.InvalidSignature('Invalid length')
        return ecdsa_verify(self.raw_pubkey, sig, inputb)
""", """        if len(sig) == 65:
            return ecdsa_verify(self.raw_pubkey, sig, inputb)
        raise exceptions.InvalidSignature('Invalid length')
"""),
 ('message/tasks.py', """        msgs = [getattr(self, slot)
                for slot in self.TASK_ID_PROVIDERS
                if hasattr(self, slot)]

        for msg in msgs:
            val = getattr(msg, attr_name, None)
            if val:
                return val
        return None
""", """        for slot in self.TASK_ID_PROVIDERS:
            val = getattr(getattr(self, slot, None), attr_name, None)
            if val:
                return val
        return None
"""),
 ('message/tasks.py', """        owner_map = {
            TaskMessage.OWNER_CHOICES.provider:
                decode_hex(self.task_to_compute.provider_public_key),
            TaskMessage.OWNER_CHOICES.requestor:
                decode_hex(self.task_to_compute.requestor_public_key),
            TaskMessage.OWNER_CHOICES.concent:
                concent_public_key,
        }

        for owner in self.EXPECTED_OWNERS:
            try:
                if self.verify_signature(public_key=owner_map.get(owner)):
                    return True
            except exceptions.InvalidSignature:
                pass
""", """        owner_map = self._owner_map(concent_public_key)
        keys = [owner_map.get(owner) for owner in self.EXPECTED_OWNERS]

        for key in keys:
            try:
                self.verify_signature(public_key=key)
            except exceptions.InvalidSignature:
                continue
            return True
"""),
 ('message/tasks.py', """    def validate_ownership_chain(self, concent_public_key=None):
""", """    def _owner_map(self, concent_public_key):
        ttc = self.task_to_compute
        owners = TaskMessage.OWNER_CHOICES
        return {
            owners.provider: decode_hex(ttc.provider_public_key),
            owners.requestor: decode_hex(ttc.requestor_public_key),
            owners.concent: concent_public_key,
        }

    def validate_ownership_chain(self, concent_public_key=None):
"""),
 ('message/tasks.py', """        for msg in [slot for slot in
                    [getattr(self, slot_name) for slot_name in self.__slots__]
                    if isinstance(slot, TaskMessage)]:
            msg.validate_ownership_chain(concent_public_key=concent_public_key)
""", """        for slot_name in self.__slots__:
            msg = getattr(self, slot_name)
            if not isinstance(msg, TaskMessage):
                continue
            msg.validate_ownership_chain(concent_public_key)
"""),
 ('message/tasks.py', """        if provider_public_key:
            assert_role('provider',
                        provider_public_key,
                        decode_hex(self.task_to_compute.provider_public_key))

        if requestor_public_key:
            assert_role('requestor',
                        requestor_public_key,
                        decode_hex(self.task_to_compute.requestor_public_key))
""", """        given = {
            'provider': provider_public_key,
            'requestor': requestor_public_key,
        }
        for role, key in given.items():
            if key:
                assert_role(role, key, decode_hex(
                    getattr(self.task_to_compute, role + '_public_key')))
"""),
 ('message/tasks.py', """        if self.payment_ts > self.header.timestamp:
            raise exceptions.ValidationError(
                "Payment timestamp cannot be from the future!"
            )
        if self.payment_ts + \\
                settings.PAYMENT_TIMESTAMP_TOLERANCE.total_seconds() < \\
                self.header.timestamp:
            raise""", """        sent = self.timestamp
        if sent < self.payment_ts:
            raise exceptions.ValidationError(
                "Payment timestamp cannot be from the future!"
            )
        tolerance = settings.PAYMENT_TIMESTAMP_TOLERANCE.total_seconds()
        if sent > self.payment_ts + tolerance:
            raise"""),
 ('message/tasks.py', """        fgtrf = self.force_get_task_result_failed
        if fgtrf:
            if (
                    self.task_id != fgtrf.task_id or
                    self.subtask_id != fgtrf.subtask_id
            ):
                raise exceptions.ValidationError(
                    "The ForceGetTaskResultFailed message must pertain to the "
                    "same task/subtask."
                )
        if self.reason == self.REASON.ForcedResourcesFailure and not fgtrf:
            raise exceptions.ValidationError(
""", """        fgtrf = self.force_get_task_result_failed
        if fgtrf:
            ours = (self.task_id, self.subtask_id)
            if ours != (fgtrf.task_id, fgtrf.subtask_id):
                raise exceptions.ValidationError(
                    "The ForceGetTaskResultFailed message must pertain to the "
                    "same task/subtask."
                )
        elif self.reason == self.REASON.ForcedResourcesFailure:
            raise exceptions.ValidationError(
"""),
 ('message/tasks.py', """        concent = self.report_computed_task.task_to_compute.concent_enabled
        allowed_reasons = self.REQUESTOR_REASONS_ALLOWED[
            'concent' if concent else 'no_concent'
        ]
""", """        concent = self.task_to_compute.concent_enabled
        if concent:
            allowed_reasons = self.REQUESTOR_REASONS_ALLOWED['concent']
        else:
            allowed_reasons = self.REQUESTOR_REASONS_ALLOWED['no_concent']
"""),
 ('message/tasks.py', """        for key in ('task_id', 'subtask_id'):
            value = self.compute_task_def[key]
            if not""", """        ids = [(key, self.compute_task_def[key])
               for key in ('task_id', 'subtask_id')]
        for key, value in ids:
            if not"""),
 ('message/tasks.py', """        return self.verify_concent_promissory_note(
            deposit_contract_address=deposit_contract_address,
        ) and self.verify_promissory_note(
            deposit_contract_address=deposit_contract_address
        )
""", """        return all(verify(deposit_contract_address) for verify in (
            self.verify_concent_promissory_note,
            self.verify_promissory_note,
        ))
"""),
 ('message/tasks.py', """        if key == 'cpu_usage' and value is not None:
            validators.validate_integer(key, value)
            if value < 0:
                raise exceptions.FieldError(
                    "Should be equal or greater than zero",
                    field=key,
                    value=value,
                )

        value = super().deserialize_slot(key, value)

        if key == 'num_subtasks':
            validators.validate_positive_integer(key, value)

        return value
""", """        if key == 'cpu_usage' and value is not None:
            self._check_cpu_usage(value)

        value = super().deserialize_slot(key, value)
        if key == 'num_subtasks':
            validators.validate_positive_integer(key, value)
        return value

    @staticmethod
    def _check_cpu_usage(value):
        validators.validate_integer('cpu_usage', value)
        validators.fail_unless(
            'cpu_usage', value, lambda x: not x < 0,
            "Should be equal or greater than zero")
"""),
 ('message/tasks.py', """        if self.compute_task_def:
            return self.compute_task_def.get('subtask_id')
        return None
""", """        ctd = self.compute_task_def
        return ctd.get('subtask_id') if ctd else None
"""),
 ('message/concents.py', """        ttcs_tuple = (
            self.ack_report_computed_task.
            report_computed_task.task_to_compute,
            self.force_report_computed_task.
            report_computed_task.task_to_compute,
        )

        if not ttcs_tuple.count(ttcs_tuple[0]) == len(ttcs_tuple):
            raise""", """        acked = self.ack_report_computed_task.task_to_compute
        forced = self.force_report_computed_task.task_to_compute
        if not acked == forced:
            raise"""),
 ('message/concents.py', """        for fi in self.files:
            if fi.get('category') == category:
                return fi

        return None
""", """        return next(
            (fi for fi in self.files if fi.get('category') == category), None)
"""),
 ('message/concents.py', """        value = super().deserialize_slot(key, value)
        if key == 'files':
            value = [deserialize_fileinfo(f) for f in value]
        return value
""", """        value = super().deserialize_slot(key, value)
        if key != 'files':
            return value
        files = []
        for f in value:
            files.append(deserialize_fileinfo(f))
        return files
"""),
 ('utils.py', """    if isinstance(b, str):
        b = bytes(b, 'utf-8')
    if isinstance(b, (bytes, bytearray)):
        return str(binascii.hexlify(b), 'utf-8')
    raise TypeError('Value must be an instance of str or bytes')
""", """    raw = b.encode('utf-8') if isinstance(b, str) else b
    if not isinstance(raw, (bytes, bytearray)):
        raise TypeError('Value must be an instance of str or bytes')
    return binascii.hexlify(raw).decode('ascii')
"""),
 ('utils.py', """    if msg.sig is None:
        msg = copy.copy(msg)
        msg.sign_message(private_key)
    return msg
""", """    if msg.sig is not None:
        return msg
    signed = copy.copy(msg)
    signed.sign_message(private_key)
    return signed
"""),
 ('idgenerator.py', """    try:
        checked_uuid = uuid.UUID(id_)
        return seed_to_node(seed) == checked_uuid.node
    except ValueError:
        return False
""", """    try:
        node = uuid.UUID(id_).node
    except ValueError:
        return False
    return node == seed_to_node(seed)
"""),
 ('idgenerator.py', """    seed = utils.decode_hex(hex_seed)
    return generate_id(seed)
""", """    return generate_id(utils.decode_hex(hex_seed))
"""),
 ('helpers.py', """        seconds=int(math.ceil(size / bytes_per_sec))
""", """        seconds=math.ceil(size / bytes_per_sec)
"""),
 ('helpers.py', """    return total_task_price*2, total_task_price*4
""", """    required = 2 * total_task_price
    return required, 2 * required
"""),
 ('register.py', """            self._types[type_] = message_class
            self._reversed[message_class] = type_
            return""", """            self._add(type_, message_class)
            return"""),
 ('register.py', """    def __getitem__(self, key):
""", """    def _add(self, type_, message_class):
        self._reversed[message_class] = type_
        self._types[type_] = message_class

    def __getitem__(self, key):
"""),
 ('serializer.py', """            except Exception as e:
                logger.debug(
                    'Wrapping exception with %s. e=%r',
                    wrap_with,
                    e.__class__,
                    exc_info=True,
                )
                raise wrap_with(
                    "({} ({})".format(e.__class__.__qualname__, e),
                ) from e
""", """            except Exception as error:
                name = type(error).__qualname__
                logger.debug('Wrapping %s with %s.', name, wrap_with)
                raise wrap_with(
                    "({} ({})".format(name, error),
                ) from error
"""),
 ('shortcuts.py', """    if pubkey:
        encrypt = functools.partial(
            ecies.encrypt,
            raw_pubkey=pubkey
        )
    else:
        encrypt = None
    return msg""", """    encrypt = None
    if pubkey:
        def encrypt(payload):
            return ecies.encrypt(payload, pubkey)
    return msg"""),
 ('validators.py', """    if not (isinstance(value, str) and len(value) <= max_length):
        raise""", """    if not isinstance(value, str) or len(value) > max_length:
        raise"""),
 ('validators.py', """    if not 0 < value <= (2**16-1):
        raise""", """    if value <= 0 or value >= 1 << 16:
        raise"""),
 ('validators.py', """    if not isinstance(value, bool):
        raise exceptions.FieldError(
            "Should be a boolean",
            field=field_name,
            value=value,
        )
""", """    fail_unless(field_name, value, lambda x: x is True or x is False,
                "Should be a boolean")
"""),
 ('datastructures/masking.py', """        bits = self.to_bits()
        num_bits = min(num_bits, self.MASK_LEN - len(bits))
        if num_bits < 0:
            raise ValueError("num_bits must be positive")
        elif num_bits == 0:
            return  # Nothing to do

        bits |= set(random.sample(self.ALL_BITS - bits, num_bits))
        self.byte_repr = self._bits_to_bytes(bits)
""", """        if num_bits < 0:
            raise ValueError("num_bits must be positive")
        bits = self.to_bits()
        free = sorted(self.ALL_BITS - bits)
        chosen = random.sample(free, min(num_bits, len(free)))
        if chosen:
            self.byte_repr = self._bits_to_bytes(bits.union(chosen))
"""),
 ('datastructures/masking.py', """        return {bit for bit in self.ALL_BITS if int_repr & (1 << bit)}
""", """        return {bit for bit in self.ALL_BITS if (int_repr >> bit) & 1}
"""),
 ('datastructures/masking.py', """        int_repr = reduce(ior, (1 << x for x in bits), 0)
""", """        int_repr = 0
        for bit in bits:
            int_repr |= 1 << bit
"""),
 ('datastructures/masking.py', """        if potential_num_workers < 1:
            return Mask()
        num_bits = max(
            -math.floor(math.log2(desired_num_workers / potential_num_workers)),
            0)
        return cls.generate(num_bits)
""", """        if potential_num_workers <= 0:
            return Mask()
        ratio = desired_num_workers / potential_num_workers
        exponent = math.floor(math.log2(ratio))
        return cls.generate(-exponent if exponent < 0 else 0)
"""),
 ('datastructures/__init__.py', """        super().__init__()
        if args:
            if isinstance(args[0], dict):
                for key, value in args[0].items():
                    self[key] = value
            else:
                for key, value in args[0]:
                    self[key] = value
        for key in kwargs:
            self[key] = kwargs[key]
""", """        super().__init__()
        pairs = []
        if args:
            pairs = args[0]
            if isinstance(pairs, dict):
                pairs = pairs.items()
        for key, value in pairs:
            self[key] = value
        for key, value in kwargs.items():
            self[key] = value
"""),
 ('datastructures/__init__.py', """        for k, v in self.ITEMS.items():
            if k not in self:
                self[k] = copy.deepcopy(v)
""", """        missing = [k for k in self.ITEMS if k not in self]
        for k in missing:
            self[k] = copy.deepcopy(self.ITEMS[k])
"""),
 ('datastructures/__init__.py', """        validator = getattr(
            self, 'validate_{}'.format(key), None
        )

        if callable(validator):
            validator(value=value)  # noqa pylint:disable=not-callable

        super()""", """        self._validate_item(key, value)
        super()"""),
 ('datastructures/__init__.py', """class StringEnum(str, enum.Enum):
""", """    def _validate_item(self, key, value):
        validator = getattr(self, f'validate_{key}', None)
        if callable(validator):
            validator(value=value)  # noqa pylint:disable=not-callable


class StringEnum(str, enum.Enum):
"""),
 ('datastructures/__init__.py', """            try:
                value = kwargs.pop(key)
            except KeyError:
                if key in self.REQUIRED:
                    raise exceptions.FieldError(
                        'Field required',
                        field=key,
                        value=None,
                    )

                value = self.DEFAULTS.get(key, lambda: None)()
            else:
                value = self.deserialize_slot(key, value)
            setattr(self, key, value)
""", """            if key in kwargs:
                value = self.deserialize_slot(key, kwargs.pop(key))
            else:
                value = self._default(key)
            setattr(self, key, value)
"""),
 ('datastructures/__init__.py', """    def to_dict(self):
        \"\"\" Nullifies""", """    def _default(self, key):
        if key in self.REQUIRED:
            raise exceptions.FieldError(
                'Field required',
                field=key,
                value=None,
            )
        if key in self.DEFAULTS:
            return self.DEFAULTS[key]()
        return None

    def to_dict(self):
        \"\"\" Nullifies"""),
 ('datastructures/p2p.py', """        # pylint: disable=attribute-defined-outside-init
        if self.pub_addr is None:
            self.pub_addr = self.prv_addr
        if self.pub_port is None:
            self.pub_port = self.prv_port
        if self.p2p_pub_port is None:
            self.p2p_pub_port = self.p2p_prv_port
        if self.hyperdrive_pub_port is None:
            self.hyperdrive_pub_port = self.hyperdrive_prv_port
""", """        for pub, prv in (
                ('pub_addr', 'prv_addr'),
                ('pub_port', 'prv_port'),
                ('p2p_pub_port', 'p2p_prv_port'),
                ('hyperdrive_pub_port', 'hyperdrive_prv_port'),
        ):
            if getattr(self, pub) is None:
                setattr(self, pub, getattr(self, prv))
"""),
 ('datastructures/p2p.py', """        if self.pub_addr is None or self.prv_addr is None:
            return False
        return self.pub_addr == self.prv_addr
""", """        return None not in (self.pub_addr, self.prv_addr) \\
            and self.pub_addr == self.prv_addr
"""),
 ('datastructures/p2p.py', """        if key == 'node':
            if isinstance(value, dict):
                value = Node(**value)
        super()""", """        if key == 'node' and isinstance(value, dict):
            value = Node(**value)
        super()"""),
 ('datastructures/tasks.py', """        sha = hashlib.sha1()
        d = self.to_dict()
        del d['signature']
        sha.update(serializer.dumps(d))
        return sha.digest()
""", """        signed = {key: value for key, value in self.to_dict().items()
                  if key != 'signature'}
        return hashlib.sha1(serializer.dumps(signed)).digest()
"""),
 ('datastructures/tasks.py', """        if isinstance(value, dt_p2p.Node):
            return value
        return dt_p2p.Node(**value)
""", """        if not isinstance(value, dt_p2p.Node):
            value = dt_p2p.Node(**value)
        return value
"""),
 ('datastructures/promissory.py', """        return "0x" + \\
               self.contract_address[2:] + \\
               self.address_from[2:] + \\
               self.address_to[2:] + \\
               self.amount.to_bytes(32, byteorder='big').hex() + \\
               self.subtask_id_bytes.hex()
""", """        parts = [a[2:] for a in (
            self.contract_address, self.address_from, self.address_to)]
        parts.append('%064x' % self.amount
                     if 0 <= self.amount < 1 << 256
                     else self.amount.to_bytes(32, 'big').hex())
        parts.append(self.subtask_id_bytes.hex())
        return '0x' + ''.join(parts)
"""),
]


def main():
    out = sys.argv[1]
    src = os.path.join(os.environ.get('GM_REPO', '/repo'), 'golem_messages')
    os.makedirs(out, exist_ok=True)
    dst = os.path.join(out, 'golem_messages')
    shutil.copytree(src, dst, dirs_exist_ok=True,
                    ignore=shutil.ignore_patterns('__pycache__'))
    missed = 0
    for rel, old, new in EDITS:
        path = os.path.join(dst, rel)
        with open(path, newline='') as f:
            text = f.read()
        crlf = '\r\n' in text
        text = text.replace('\r\n', '\n')
        if text.count(old) != 1:
            print('not applied (%d): %s: %s' % (
                text.count(old), rel, old[:70]))
            missed += 1
            continue
        text = text.replace(old, new)
        if crlf:
            text = text.replace('\n', '\r\n')
        with open(path, 'w', newline='') as f:
            f.write(text)
    print('%d of %d edits applied' % (len(EDITS) - missed, len(EDITS)))


if __name__ == '__main__':
    main()
