From d605b66735d71a3ad4eba4a4a8b40ef8bc648511 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:10:14 +0000
Subject: [PATCH 01/19] fix: StartSessionResponse loses conn_id when loaded

---
 golem_messages/message/tasks.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/golem_messages/message/tasks.py b/golem_messages/message/tasks.py
index 7ddc479..183b83b 100644
--- a/golem_messages/message/tasks.py
+++ b/golem_messages/message/tasks.py
@@ -723,8 +723,7 @@ class StartSessionResponse(base.Message):
            an answer for a request to start task session
         :param uuid conn_id: connection id for reference
         """
-        self.conn_id = conn_id
-        super().__init__(**kwargs)
+        super().__init__(conn_id=conn_id, **kwargs)
 
 
 @library.register(TASK_MSG_BASE + 26)
-- 
2.43.0


From eab8403d2edb15531828e4038a1e7731d873e696 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:10:14 +0000
Subject: [PATCH 02/19] fix: ephemeral keys cached by ECIESKeyManager never
 expire on a cache hit

---
 golem_messages/cryptography.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/golem_messages/cryptography.py b/golem_messages/cryptography.py
index 20f3152..568984d 100644
--- a/golem_messages/cryptography.py
+++ b/golem_messages/cryptography.py
@@ -254,7 +254,6 @@ class ECIESKeyManager:
 
         return enc_key, mac_key
 
-    @lru_cache(maxsize=1024)
     def get_ephem_key(self, raw_pubkey: bytes) -> Tuple[bytes, bytes, bytes]:
         """
         Get ephemeral elliptic curve key and derived keys for encryption and
@@ -265,10 +264,17 @@ class ECIESKeyManager:
             - mac key (32 bytes)
             - public key with leading '\x04' byte (65 bytes)
         """
+        # has to happen outside of the cached function,
+        # otherwise a cache hit would never expire
         if self.last_cleanup_time < time.time() - self.timeout:
-            ECIESKeyManager.get_ephem_key.cache_clear()
+            ECIESKeyManager._generate_ephem_key.cache_clear()
             self.last_cleanup_time = time.time()
 
+        return self._generate_ephem_key(raw_pubkey)
+
+    @lru_cache(maxsize=1024)
+    def _generate_ephem_key(
+            self, raw_pubkey: bytes) -> Tuple[bytes, bytes, bytes]:
         ephem = HashablePrivateKey()
         ephem_raw_pubkey = ephem.public_key.format(compressed=False)
         pubkey = PublicKey(b'\x04' + raw_pubkey)
-- 
2.43.0


From 16e2f04756b5fb31315b387eb45ee2c5f08ae2b5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:10:14 +0000
Subject: [PATCH 03/19] fix: validate_port rejects port 65535

---
 golem_messages/validators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/golem_messages/validators.py b/golem_messages/validators.py
index 58129dc..72e414c 100644
--- a/golem_messages/validators.py
+++ b/golem_messages/validators.py
@@ -53,7 +53,7 @@ def validate_positive_integer(field_name, value):
 
 def validate_port(field_name, value):
     validate_integer(field_name, value)
-    if not 0 < value < (2**16-1):
+    if not 0 < value <= (2**16-1):
         raise exceptions.FieldError(
             "Port not in range 1, 2**16-1",
             field=field_name,
-- 
2.43.0


From 47a9e123d692115a13b872131e4ea140bac04c23 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:10:14 +0000
Subject: [PATCH 04/19] fix: malformed promissory note sig raises
 AttributeError on Python >= 3.9

---
 golem_messages/datastructures/promissory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/golem_messages/datastructures/promissory.py b/golem_messages/datastructures/promissory.py
index 1fd792b..c7c88ab 100644
--- a/golem_messages/datastructures/promissory.py
+++ b/golem_messages/datastructures/promissory.py
@@ -96,7 +96,7 @@ class PromissoryNote:
                 "The provided promissory note sig: `{}` has wrong type. "
                 "Must be a tuple with format: {}".format(
                     promissory_note_sig,
-                    PromissoryNoteSig._field_types,  # noqa pylint: disable=protected-access
+                    PromissoryNoteSig.__annotations__,
                 )
             ) from e
 
-- 
2.43.0


From d02213328fa608602a1e753ddcf3ed8c701e8b4c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:10:14 +0000
Subject: [PATCH 05/19] fix: FileInfo category other than a Category raises
 TypeError on Python >= 3.8

---
 golem_messages/message/concents.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/golem_messages/message/concents.py b/golem_messages/message/concents.py
index e198544..5b56693 100644
--- a/golem_messages/message/concents.py
+++ b/golem_messages/message/concents.py
@@ -169,7 +169,7 @@ class FileTransferToken(base.Message):
         }
 
         def validate_category(self, value):
-            if value not in self.Category:
+            if not isinstance(value, self.Category):
                 raise exceptions.FieldError(
                     "`category` must be one of %s, got: " % [
                         c for c in self.Category],
-- 
2.43.0


From b0229638fbeed02bdf7995d90c524132a30fc07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:33 +0000
Subject: [PATCH 06/19] fix: nested message accepted with a header of another
 message type

---
 golem_messages/message/base.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/golem_messages/message/base.py b/golem_messages/message/base.py
index e939d2b..83c0027 100644
--- a/golem_messages/message/base.py
+++ b/golem_messages/message/base.py
@@ -374,6 +374,14 @@ class Message:
                 field=key,
                 value=value,
             ) from e
+        # A signature covers the type from the header, so it can't differ
+        # from what the message is going to be treated as
+        if result.header.type_ != result._type:  # noqa pylint: disable=protected-access
+            raise exceptions.FieldError(
+                "Should be instance of {}".format(slot_definition.klass),
+                field=key,
+                value=value,
+            )
         return result
 
     @classmethod
-- 
2.43.0


From a3445b6c1c705e06a557476177d34b9dc50d161f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:33 +0000
Subject: [PATCH 07/19] fix: malformed frame makes load() raise something else
 than MessageError

---
 golem_messages/message/base.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/golem_messages/message/base.py b/golem_messages/message/base.py
index 83c0027..d445cd3 100644
--- a/golem_messages/message/base.py
+++ b/golem_messages/message/base.py
@@ -451,12 +451,17 @@ class Message:
 
         class_ = library[header.type_]
         logger.debug('Deserialization class found. class=%r', class_)
-        return class_.deserialize_with_header(
-            header,
-            data,
-            decrypt_func,
-            sender_public_key=sender_public_key,
-        )
+        try:
+            return class_.deserialize_with_header(
+                header,
+                data,
+                decrypt_func,
+                sender_public_key=sender_public_key,
+            )
+        except exceptions.MessageError:
+            raise
+        except Exception as e:
+            raise exceptions.MessageError("Deserialization failed") from e
 
     @classmethod
     def deserialize_with_header(
-- 
2.43.0


From 72e9b2732a54fbb3a0464865dd9f9174f02ed810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:55 +0000
Subject: [PATCH 08/19] fix: ProviderStats can't be made of statistics
 containers

The validators let containers in, but each value was unpacked as a dict.
---
 golem_messages/datastructures/stats.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/golem_messages/datastructures/stats.py b/golem_messages/datastructures/stats.py
index 7cb6001..8c639cc 100644
--- a/golem_messages/datastructures/stats.py
+++ b/golem_messages/datastructures/stats.py
@@ -179,18 +179,26 @@ class ProviderStats(datastructures.Container):
 
     @classmethod
     def deserialize_blkio_stats(cls, value: dict) -> Optional[BlockIoStats]:
+        if isinstance(value, BlockIoStats):
+            return value
         return BlockIoStats(**value) if value else None
 
     @classmethod
     def deserialize_cpu_stats(cls, value: dict) -> Optional[CpuStats]:
+        if isinstance(value, CpuStats):
+            return value
         return CpuStats(**value) if value else None
 
     @classmethod
     def deserialize_memory_stats(cls, value: dict) -> Optional[MemoryStats]:
+        if isinstance(value, MemoryStats):
+            return value
         return MemoryStats(**value) if value else None
 
     @classmethod
     def deserialize_pids_stats(cls, value: dict) -> Optional[PidStats]:
+        if isinstance(value, PidStats):
+            return value
         return PidStats(**value) if value else None
 
     @classmethod
-- 
2.43.0


From 1757916ded8ff8f601a22a90f2b322c103b1eb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:58 +0000
Subject: [PATCH 09/19] fix: ForceReportComputedTaskResponseFactory with reject
 ignores given reason

with_reject_report_computed_task() replaced the reason one gave and left
a random one if there was none: the condition was reversed, compared to
with_ack_report_computed_task().
---
 golem_messages/factories/concents.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/golem_messages/factories/concents.py b/golem_messages/factories/concents.py
index f78924c..499b77a 100644
--- a/golem_messages/factories/concents.py
+++ b/golem_messages/factories/concents.py
@@ -328,7 +328,7 @@ class ForceReportComputedTaskResponseFactory(helpers.MessageFactory):
 
     @classmethod
     def with_reject_report_computed_task(cls, *args, **kwargs):
-        if 'reason' in kwargs:
+        if 'reason' not in kwargs:
             kwargs.update({
                 'reason': cls._meta.model.REASON.RejectFromRequestor
             })
-- 
2.43.0


From 4e82fd52a6b1df4d72b5afef9d26adfe9299e2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:01 +0000
Subject: [PATCH 10/19] fix: messages of some factories are signed before they
 are complete

Post-generation hooks are called in the order of declaration and the
inherited sign goes first, so that what the other hooks set was not
covered by the signature (or signing failed, as for ForcePayment).
Same way out as in TaskToComputeFactory.
---
 golem_messages/factories/concents.py | 15 +++++++++++++++
 golem_messages/factories/tasks.py    |  3 +++
 2 files changed, 18 insertions(+)

diff --git a/golem_messages/factories/concents.py b/golem_messages/factories/concents.py
index 499b77a..3f02162 100644
--- a/golem_messages/factories/concents.py
+++ b/golem_messages/factories/concents.py
@@ -60,6 +60,9 @@ class FileTransferTokenFactory(helpers.MessageFactory):
 
     # pylint: enable=no-self-argument
 
+    # after the other hooks: they are called in order of declaration
+    sign = factory.post_generation(helpers.MessageFactory.sign_message)
+
 
 class ForceReportComputedTaskFactory(helpers.MessageFactory):
     class Meta:
@@ -209,6 +212,9 @@ class ForceSubtaskResultsResponseFactory(helpers.MessageFactory):
 
     # pylint: enable=no-self-argument
 
+    # after the other hooks: they are called in order of declaration
+    sign = factory.post_generation(helpers.MessageFactory.sign_message)
+
 
 class ForceSubtaskResultsFactory(helpers.MessageFactory):
     class Meta:
@@ -266,6 +272,9 @@ class ForcePaymentFactory(helpers.MessageFactory):
 
     # pylint: enable=no-self-argument
 
+    # after the other hooks: they are called in order of declaration
+    sign = factory.post_generation(helpers.MessageFactory.sign_message)
+
 
 class ForcePaymentCommittedFactory(helpers.MessageFactory):
     class Meta:
@@ -317,6 +326,9 @@ class ForceReportComputedTaskResponseFactory(helpers.MessageFactory):
         tasks_factories.RejectReportComputedTaskFactory
     )
 
+    # after the other hooks: they are called in order of declaration
+    sign = factory.post_generation(helpers.MessageFactory.sign_message)
+
     @classmethod
     def with_ack_report_computed_task(cls, *args, **kwargs):
         if 'reason' not in kwargs:
@@ -364,6 +376,9 @@ class VerdictReportComputedTaskFactory(helpers.MessageFactory):
 
     # pylint: enable=no-self-argument
 
+    # after the other hooks: they are called in order of declaration
+    sign = factory.post_generation(helpers.MessageFactory.sign_message)
+
 
 class ClientAuthorizationFactory(helpers.MessageFactory):
     class Meta:
diff --git a/golem_messages/factories/tasks.py b/golem_messages/factories/tasks.py
index f16144f..384998d 100644
--- a/golem_messages/factories/tasks.py
+++ b/golem_messages/factories/tasks.py
@@ -287,6 +287,9 @@ class RejectReportComputedTaskFactory(helpers.MessageFactory):
         'cannot_compute_task', CannotComputeTaskFactory
     )
 
+    # after the other hooks: they are called in order of declaration
+    sign = factory.post_generation(helpers.MessageFactory.sign_message)
+
     @classmethod
     def with_task_to_compute(cls, *args, **kwargs):
         if 'reason' not in kwargs:
-- 
2.43.0


From 9585de571e74732ce3cb618f750c7d9ec468c5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:20 +0000
Subject: [PATCH 11/19] fix: ECCx of a private key of 31 bytes never returns

---
 golem_messages/cryptography.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/golem_messages/cryptography.py b/golem_messages/cryptography.py
index 568984d..c3aede0 100644
--- a/golem_messages/cryptography.py
+++ b/golem_messages/cryptography.py
@@ -148,7 +148,7 @@ class ECCx(pyelliptic.ECC):
                              raw_privkey=raw_privkey, curve=self.curve)
             # XXX: when raw_privkey is generated by pyelliptic it sometimes
             #      has 31 bytes so we try again!
-            if self.raw_privkey and len(self.raw_privkey) != 32:
+            if raw_privkey is None and len(self.raw_privkey) != 32:
                 continue
             if not self.has_valid_keys():
                 raise exceptions.CryptoError('Invalid privkey and/or pubkey')
-- 
2.43.0


From 328096f8a65ff57215f36becaaa1fa0fbf607407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:20 +0000
Subject: [PATCH 12/19] fix: encode_hex raises IndexError on empty input

---
 golem_messages/utils.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/golem_messages/utils.py b/golem_messages/utils.py
index 2e867d1..6c1e493 100644
--- a/golem_messages/utils.py
+++ b/golem_messages/utils.py
@@ -22,8 +22,6 @@ def encode_hex(b):
     if isinstance(b, str):
         b = bytes(b, 'utf-8')
     if isinstance(b, (bytes, bytearray)):
-        if b[0] == b'0' and b[1] == b'x':
-            b = b[2:]
         return str(binascii.hexlify(b), 'utf-8')
     raise TypeError('Value must be an instance of str or bytes')
 
-- 
2.43.0


From b79aa9acd10e24ae3b03a7771f692f4d28c4c155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:14 +0000
Subject: [PATCH 13/19] fix: making a FileTransferToken changes the pairs it is
 given

---
 golem_messages/message/concents.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/golem_messages/message/concents.py b/golem_messages/message/concents.py
index 5b56693..18f8a5d 100644
--- a/golem_messages/message/concents.py
+++ b/golem_messages/message/concents.py
@@ -1,3 +1,4 @@
+import copy
 import enum
 
 from golem_messages import datastructures
@@ -140,6 +141,7 @@ class FileTransferToken(base.Message):
 
     def deserialize_slot(self, key, value):
         def deserialize_fileinfo(f):
+            f = copy.copy(f)
             try:
                 f['category'] = FileTransferToken.FileInfo.Category(
                     f.get('category')
-- 
2.43.0


From 7dc8445229ba49aca60e6df04259752fc032472a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:31 +0000
Subject: [PATCH 14/19] fix: update() and setdefault() of checked mappings
 skipped the checks

FrozenDict and ValidatingDict check what is assigned by item, but dict's
own update(), setdefault() and |= do not go through __setitem__, so any key
and value could be put in by those.
---
 golem_messages/datastructures/__init__.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/golem_messages/datastructures/__init__.py b/golem_messages/datastructures/__init__.py
index aa2a811..bc83eb5 100644
--- a/golem_messages/datastructures/__init__.py
+++ b/golem_messages/datastructures/__init__.py
@@ -34,6 +34,19 @@ class SetItemDict(dict):
         for key in kwargs:
             self[key] = kwargs[key]
 
+    def update(self, *args, **kwargs):
+        for key, value in dict(*args, **kwargs).items():
+            self[key] = value
+
+    def setdefault(self, key, default=None):
+        if key not in self:
+            self[key] = default
+        return self[key]
+
+    def __ior__(self, other):
+        self.update(other)
+        return self
+
 
 class FrozenDict(SetItemDict):
     """
-- 
2.43.0


From 23acd2cecd870620a0d7387cb4aa9786a96d149b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:21 +0000
Subject: [PATCH 15/19] fix: a list in place of a single nested message (or the
 reverse) was sent

---
 golem_messages/message/base.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/golem_messages/message/base.py b/golem_messages/message/base.py
index d445cd3..ac7f286 100644
--- a/golem_messages/message/base.py
+++ b/golem_messages/message/base.py
@@ -279,6 +279,14 @@ class Message:
                 )
             return False, None
 
+        if isinstance(value, list) != slot_definition.is_list:
+            raise exceptions.FieldError(
+                "Invalid nested message format (is_list: {})".format(
+                    slot_definition.is_list,
+                ),
+                field=key,
+                value=value,
+            )
         if not isinstance(value, list):
             return False, self.serialize_message_single(key, value)
         return True, [self.serialize_message_single(key, msg) for msg in value]
-- 
2.43.0


From 3c2e5d3c6e014c6d1ba072e83d6ce7e8b44c7cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:14 +0000
Subject: [PATCH 16/19] fix: versions with a trailing newline or digits beyond
 ASCII pass for valid

---
 golem_messages/message/base.py | 3 +++
 golem_messages/validators.py   | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/golem_messages/message/base.py b/golem_messages/message/base.py
index ac7f286..44d7609 100644
--- a/golem_messages/message/base.py
+++ b/golem_messages/message/base.py
@@ -56,6 +56,9 @@ def verify_time(timestamp):
 def verify_version(msg_version):
     try:
         theirs_v = semantic_version.Version(msg_version)
+        # The parser overlooks a trailing newline
+        if str(theirs_v) != msg_version:
+            raise ValueError("Not a version: {!r}".format(msg_version))
     except ValueError as e:
         raise exceptions.VersionMismatchError(
             "Invalid version received: {msg_version}".format(
diff --git a/golem_messages/validators.py b/golem_messages/validators.py
index 72e414c..1050053 100644
--- a/golem_messages/validators.py
+++ b/golem_messages/validators.py
@@ -83,7 +83,10 @@ def validate_boolean(field_name, value):
 
 def validate_version(field_name, value):
     try:
-        semantic_version.Version(value)
+        version = semantic_version.Version(value)
+        # The parser overlooks a trailing newline and digits beyond ASCII
+        if str(version) != value:
+            raise ValueError("Not a version: {!r}".format(value))
     except (TypeError, ValueError) as e:
         raise exceptions.FieldError(
             "Should be a version",
-- 
2.43.0


From e382c377c01ba2fbfe8f2b1878ca603d763e0a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:14 +0000
Subject: [PATCH 17/19] fix: texts that are no UUIDs (signs, spaces,
 underscores) pass check_id_seed

---
 golem_messages/idgenerator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/golem_messages/idgenerator.py b/golem_messages/idgenerator.py
index d0c1578..8359301 100644
--- a/golem_messages/idgenerator.py
+++ b/golem_messages/idgenerator.py
@@ -32,6 +32,11 @@ def generate_new_id_from_id(id_: str) -> str:
 def check_id_seed(id_: str, seed: bytes) -> bool:
     try:
         checked_uuid = uuid.UUID(id_)
+        # UUID() overlooks signs, spaces, underscores and the like
+        # among the digits
+        digits = id_.replace('urn:', '').replace('uuid:', '').strip('{}')
+        if digits.replace('-', '').lower() != checked_uuid.hex:
+            return False
         return seed_to_node(seed) == checked_uuid.node
     except ValueError:
         return False
-- 
2.43.0


From 119387e456df7777ebead6dd2df0a3b2bd783398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:27 +0000
Subject: [PATCH 18/19] fix: messages and errors that hold a huge integer can
 not be printed

Python refuses to convert an integer of more than 4300 digits to text, so
repr() of a received message, or str() of the FieldError that refused it,
raised ValueError.
---
 golem_messages/exceptions.py   |  7 ++++++-
 golem_messages/message/base.py | 16 ++++++++++------
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/golem_messages/exceptions.py b/golem_messages/exceptions.py
index 9c8b67f..68f1564 100644
--- a/golem_messages/exceptions.py
+++ b/golem_messages/exceptions.py
@@ -19,10 +19,15 @@ class FieldError(MessageError):
         super().__init__(*args)
 
     def __str__(self):
+        try:
+            value = repr(self.value)
+        except ValueError:
+            # An integer of more digits than Python agrees to print
+            value = '<unprintable>'
         return "{parent} [{field}:{value}]".format(
             parent=super().__str__(),
             field=self.field,
-            value=repr(self.value),
+            value=value,
         )
 
 
diff --git a/golem_messages/message/base.py b/golem_messages/message/base.py
index 44d7609..6c642a4 100644
--- a/golem_messages/message/base.py
+++ b/golem_messages/message/base.py
@@ -166,12 +166,16 @@ class Message:
         except exceptions.FieldError:
             slots_ = '<unserializable>'
         template = "{name!r}(header={header!r}, sig={sig!r}, slots={slots!r})"
-        return template.format(
-            name=self.__class__.__name__,
-            header=getattr(self, 'header', None),
-            sig=getattr(self, 'sig', None),
-            slots=slots_,
-        )
+        try:
+            return template.format(
+                name=self.__class__.__name__,
+                header=getattr(self, 'header', None),
+                sig=getattr(self, 'sig', None),
+                slots=slots_,
+            )
+        except ValueError:
+            # An integer of more digits than Python agrees to print
+            return "{!r}(<unprintable>)".format(self.__class__.__name__)
 
     @property
     def _type(self):
-- 
2.43.0


From fad7fd2b1b8f8e057e8ad8e8762a32676c81bdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:27 +0000
Subject: [PATCH 19/19] fix: an acceptance whose payment time is NaN is valid

It compares as neither later nor earlier than anything.  Integers beyond
floats raised OverflowError instead of ValidationError.
---
 golem_messages/message/tasks.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/golem_messages/message/tasks.py b/golem_messages/message/tasks.py
index 183b83b..958f9c0 100644
--- a/golem_messages/message/tasks.py
+++ b/golem_messages/message/tasks.py
@@ -581,6 +581,12 @@ class SubtaskResultsAccepted(TaskMessage):
     }
 
     def is_valid(self) -> bool:
+        # NaN is neither too early nor too late, and what is beyond floats
+        # can't be compared below
+        if not abs(self.payment_ts) < 2**64:
+            raise exceptions.ValidationError(
+                "Payment timestamp is out of range."
+            )
         if self.payment_ts > self.header.timestamp:
             raise exceptions.ValidationError(
                 "Payment timestamp cannot be from the future!"
-- 
2.43.0

