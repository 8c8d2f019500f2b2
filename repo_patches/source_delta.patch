From 22c2c9a5a69b540779e5efa1d2590c9102597a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:22 +0000
Subject: [PATCH 01/48] fix: keep trailing zeros of the whole seconds when
 serializing a duration

PT10S, PT20S, ... were written as PT1S, PT2S, ... because the strip of the
fractional part also removed zeros from the integral part.
---
 src/psrpcore/types/_serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 37d6c7a..4b9af19 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -561,7 +561,7 @@ def _serialize_duration(
         minutes_str = f"{minutes}M" if minutes else ""
         seconds_str = f"{seconds:.7f}" if (seconds or (not hours_str and not minutes_str)) else ""
         if seconds_str:
-            seconds_str = seconds_str.rstrip(".0").zfill(1) + "S"
+            seconds_str = seconds_str.rstrip("0").rstrip(".") + "S"
 
         time_str = f"T{hours_str}{minutes_str}{seconds_str}"
 
-- 
2.43.0


From aac6990e454b0552fafc7d6a68acd718b201f05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:22 +0000
Subject: [PATCH 02/48] fix: zero pad the year when serializing a datetime

strftime("%Y") does not pad on glibc so dates before year 1000, like
DateTime.MinValue, could not be deserialized again.
---
 src/psrpcore/types/_serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 4b9af19..d0ba05e 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -518,7 +518,7 @@ def _serialize_datetime(
         utc_offset = value.strftime("%z")
         timezone = f"{utc_offset[:3]}:{utc_offset[3:]}"
 
-    dt_str = value.strftime(f"%Y-%m-%dT%H:%M:%S{fraction_seconds}{timezone}")
+    dt_str = f"{value.year:04d}" + value.strftime(f"-%m-%dT%H:%M:%S{fraction_seconds}{timezone}")
 
     return dt_str
 
-- 
2.43.0


From 2ccd271ccb9443dfa92a45c9fe38a3b7df7ca3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:57 +0000
Subject: [PATCH 03/48] fix: escape every character that is not valid in XML
 when serializing a string

Lone high surrogates from U+D900 to U+DBFF and the noncharacters U+FFFE and
U+FFFF were written as is, resulting in a message that cannot be parsed.
---
 src/psrpcore/types/_serializer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index d0ba05e..1bd0d3e 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -70,8 +70,9 @@ log = logging.getLogger(__name__)
 # Finds _x in a case insensitive way which we need to escape first as '_x' is the escape code.
 _STRING_SERIAL_ESCAPE_ESCAPE = re.compile("(?i)_(x)")
 
-# Finds C0, C1, and surrogate pairs in a unicode string for us to encode according to the PSRP rules.
-_STRING_SERIAL_ESCAPE = re.compile("[\u0000-\u001F\u007F-\u009F\uD800-\uD8FF\uDC00-\uDFFF\U00010000-\U0010FFFF]")
+# Finds C0, C1, surrogate pairs, and the XML noncharacters in a unicode string for us to encode according to the PSRP
+# rules.
+_STRING_SERIAL_ESCAPE = re.compile("[\u0000-\u001F\u007F-\u009F\uD800-\uDFFF\uFFFE\uFFFF\U00010000-\U0010FFFF]")
 
 # To support surrogate UTF-16 pairs we need to use a UTF-16 regex so we can replace the UTF-16 string representation
 # with the actual UTF-16 byte value and then decode that.
-- 
2.43.0


From a53b4c07822ff3025e357fd198df435fdf03e975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:57 +0000
Subject: [PATCH 04/48] fix: do not match string escapes across character
 boundaries

The escape pattern was searched in the UTF-16 bytes of the string and could
match in the middle of a character, corrupting strings that contain no escape.
---
 src/psrpcore/types/_serializer.py | 31 +++++++++++--------------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 1bd0d3e..f1fe5a8 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -74,9 +74,8 @@ _STRING_SERIAL_ESCAPE_ESCAPE = re.compile("(?i)_(x)")
 # rules.
 _STRING_SERIAL_ESCAPE = re.compile("[\u0000-\u001F\u007F-\u009F\uD800-\uDFFF\uFFFE\uFFFF\U00010000-\U0010FFFF]")
 
-# To support surrogate UTF-16 pairs we need to use a UTF-16 regex so we can replace the UTF-16 string representation
-# with the actual UTF-16 byte value and then decode that.
-_STRING_DESERIAL_FIND = re.compile(rb"\x00_\x00x((?:\x00[a-fA-F0-9]){4})\x00_")
+# Finds the escaped UTF-16 code units in a CLIXML string.
+_STRING_DESERIAL_FIND = re.compile(r"_x([a-fA-F0-9]{4})_")
 
 # Python datetime only supports up to microsecond precision but .NET can go to 100 nanoseconds. To support this level
 # of precision we need to extract the fractional seconds part of a datetime ourselves and compute the value.
@@ -468,23 +467,15 @@ def _deserialize_string(
 
     # test '_xD83C_'
 
-    def rplcr(matchobj: typing.Any) -> bytes:
-        # The matched object is the UTF-16 byte representation of the UTF-8 hex string value. We need to decode the
-        # byte str to unicode and then unhexlify that hex string to get the actual bytes of the _x****_ value, e.g.
-        # group(0) == b'\x00_\x00x\x000\x000\x000\x00A\x00_'
-        # group(1) == b'\x000\x000\x000\x00A'
-        # unicode (from utf-16-be) == '000A'
-        # returns b'\x00\x0A'
-        match_hex = matchobj.group(1)
-        hex_string = match_hex.decode("utf-16-be")
-        return binascii.unhexlify(hex_string)
-
-    # Need to ensure we start with a unicode representation of the string so that we can get the actual UTF-16 bytes
-    # value from that string.
-    b_value = value.encode("utf-16-be")
-    b_escaped = re.sub(_STRING_DESERIAL_FIND, rplcr, b_value)
-
-    return b_escaped.decode("utf-16-be", errors="surrogatepass")
+    def rplcr(matchobj: typing.Any) -> str:
+        return chr(int(matchobj.group(1), 16))
+
+    # The escaped values are UTF-16 code units, going through UTF-16 combines any surrogate pairs into the actual
+    # character they represent.
+    unescaped = re.sub(_STRING_DESERIAL_FIND, rplcr, value)
+    b_unescaped = unescaped.encode("utf-16-be", errors="surrogatepass")
+
+    return b_unescaped.decode("utf-16-be", errors="surrogatepass")
 
 
 def _serialize_datetime(
-- 
2.43.0


From d44596dcdd7ad50072bed61704a2087a9db2a2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:57 +0000
Subject: [PATCH 05/48] fix: escape the ToString and type name values when
 serializing an object

ToString was decoded but never encoded so control characters broke the message
and text that looks like an escape was changed. Type names were neither encoded
nor decoded.
---
 src/psrpcore/types/_serializer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index f1fe5a8..2527090 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -867,7 +867,7 @@ class _Serializer:
 
                 tn = ElementTree.SubElement(element, "TN", RefId=str(ref_id))
                 for type_name in type_names:
-                    ElementTree.SubElement(tn, "T").text = type_name
+                    ElementTree.SubElement(tn, "T").text = _serialize_string(type_name)
 
         no_props = True
         for xml_name, prop_type in [("Props", "adapted"), ("MS", "extended")]:
@@ -932,7 +932,7 @@ class _Serializer:
                 to_string = ps_object.to_string
 
             if to_string:
-                ElementTree.SubElement(element, "ToString").text = to_string
+                ElementTree.SubElement(element, "ToString").text = _serialize_string(to_string)
 
             if is_complex and no_props and not isinstance(value, PSObject):
                 # If this was a complex object but no properties were defined we consider this a normal Python
@@ -1033,7 +1033,7 @@ class _Serializer:
         if element_tag != "Obj":
             raise ValueError(f"Unknown element found: {element.tag}")
 
-        type_names = [e.text or "" for e in element.findall("TN/T")]
+        type_names = [_deserialize_string(e.text or "") for e in element.findall("TN/T")]
         if type_names:
             tn_ref = element.find("TN")
             if tn_ref is not None:
-- 
2.43.0


From f3b02e48bfb9abda1a49991d5638e4f66524b28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:57 +0000
Subject: [PATCH 06/48] fix: only reference existing type names if they are all
 the same

Objects that share the first type name with an earlier object but not the
remaining ones were given the type names of the earlier object.
---
 src/psrpcore/types/_serializer.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 2527090..af5e4f4 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -648,7 +648,7 @@ class _Serializer:
         self._obj_ref: weakref.WeakKeyDictionary = weakref.WeakKeyDictionary()
         self._obj_ref_enum: typing.Dict[int, int] = {}
         self._obj_ref_id = 0
-        self._tn_ref_list: typing.List[str] = []
+        self._tn_ref_list: typing.List[typing.List[str]] = []
 
         # Used for deserialization
         self._obj_ref_map: typing.Dict[str, typing.Any] = {}
@@ -853,17 +853,16 @@ class _Serializer:
 
         # Do not add the type names for extended primitive object unless it's an enum
         if ps_object.type_names and (is_enum or not is_extended_primitive):
-            type_names = ps_object.type_names
-            main_type = type_names[0]
-            is_ref = main_type in self._tn_ref_list
+            type_names = list(ps_object.type_names)
+            is_ref = type_names in self._tn_ref_list
 
             if is_ref:
-                ref_id = self._tn_ref_list.index(main_type)
+                ref_id = self._tn_ref_list.index(type_names)
                 ElementTree.SubElement(element, "TNRef", RefId=str(ref_id))
 
             else:
-                self._tn_ref_list.append(main_type)
-                ref_id = self._tn_ref_list.index(main_type)
+                self._tn_ref_list.append(type_names)
+                ref_id = self._tn_ref_list.index(type_names)
 
                 tn = ElementTree.SubElement(element, "TN", RefId=str(ref_id))
                 for type_name in type_names:
-- 
2.43.0


From cc33083d668cf7f35c8d8ddb389279ee61cda925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:57 +0000
Subject: [PATCH 07/48] fix: do not drain a queue when serializing it

---
 src/psrpcore/types/_serializer.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index af5e4f4..fe5ba02 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -900,13 +900,8 @@ class _Serializer:
         elif isinstance(value, (PSQueueBase, queue.Queue)):
             que_element = ElementTree.SubElement(element, self._type_to_element[PSQueue])
 
-            while True:
-                try:
-                    que_entry = self.serialize(value.get(block=False))
-                except queue.Empty:
-                    break
-                else:
-                    que_element.append(que_entry)
+            for que_entry in list(value.queue):
+                que_element.append(self.serialize(que_entry))
 
         elif isinstance(value, (PSDictBase, dict)):
             dct_element = ElementTree.SubElement(element, self._type_to_element[PSDict])
-- 
2.43.0


From 7c239ecc697536910a3ece3c103cd820142ab23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:57 +0000
Subject: [PATCH 08/48] fix: serialize ints below the Int32 minimum as an Int64

---
 src/psrpcore/types/_serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index fe5ba02..bb32d75 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -730,7 +730,7 @@ class _Serializer:
             if isinstance(value, PSObject):
                 ps_type = type(value)
             elif isinstance(value, int):
-                ps_type = PSInt64 if value > PSInt.MaxValue else PSInt
+                ps_type = PSInt if PSInt.MinValue <= value <= PSInt.MaxValue else PSInt64
             elif isinstance(value, float):
                 ps_type = PSSingle
             else:
-- 
2.43.0


From f3dc79b7b8a92d5aee5e2f27479656c6438c76a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:57 +0000
Subject: [PATCH 09/48] fix: deserialize empty string fields of a progress
 record

An empty Activity or StatusDescription was skipped and failed the
deserialization, an empty CurrentOperation became None.
---
 src/psrpcore/types/_serializer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index bb32d75..4f12f16 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -430,15 +430,16 @@ def _deserialize_progress_record(
         ("SD", "StatusDescription", str),
     ]:
         element_value = value.find(element_key)
-        if element_value is None or not element_value.text:
+        if element_value is None or not (element_value.text or prop_type == str):
             continue
 
+        element_text = element_value.text or ""
         prop_value: typing.Union[int, str, ProgressRecordType]
         if prop_type == int:
-            prop_value = int(element_value.text)
+            prop_value = int(element_text)
 
         else:
-            prop_value = _deserialize_string(element_value.text)
+            prop_value = _deserialize_string(element_text)
 
         if prop_type == ProgressRecordType:
             prop_value = ProgressRecordType[str(prop_value)]
-- 
2.43.0


From 15e259832c545d11b22689355b5c26f4711be476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:57 +0000
Subject: [PATCH 10/48] fix: do not reference distinct objects that are equal
 when serializing

Extended primitives, like a PSString with a note property, that compare as equal
were serialized as a reference to the first one losing their own properties.
---
 src/psrpcore/types/_serializer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 4f12f16..7141359 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -646,7 +646,7 @@ class _Serializer:
         self._kwargs = kwargs
 
         # Used for serialization to determine fi an object is already serialized or not.
-        self._obj_ref: weakref.WeakKeyDictionary = weakref.WeakKeyDictionary()
+        self._obj_ref: typing.Dict[int, typing.Tuple[int, typing.Any]] = {}
         self._obj_ref_enum: typing.Dict[int, int] = {}
         self._obj_ref_id = 0
         self._tn_ref_list: typing.List[typing.List[str]] = []
@@ -1169,7 +1169,11 @@ class _Serializer:
         next_ref_id = self._obj_ref_id
 
         try:
-            ref_id = self._obj_ref.setdefault(value, next_ref_id)
+            # Only the same object can be referenced, not one that is equal to it. The value is stored with the ref id
+            # to ensure the id() stays unique. This does not apply to objects that cannot be hashed or weakly referenced.
+            hash(value)
+            weakref.ref(value)
+            ref_id = self._obj_ref.setdefault(id(value), (next_ref_id, value))[0]
         except TypeError as e:
             # Some objects cannot have a weakref, try id() only when dealing with known workable types.
             if isinstance(value, enum.Enum):
-- 
2.43.0


From 76d2a90139f9a3eda1cd9bad1615b3e41060d014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:59 +0000
Subject: [PATCH 11/48] fix: do not mix messages of different stream types in a
 payload

The payload is sent with a single stream type but host calls and responses use
the prompt response stream while everything else uses the default one.
---
 src/psrpcore/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/psrpcore/_base.py b/src/psrpcore/_base.py
index 0a453aa..b0549c4 100644
--- a/src/psrpcore/_base.py
+++ b/src/psrpcore/_base.py
@@ -260,8 +260,8 @@ class RunspacePool(typing.Generic[T1]):
                 stream_type = message.stream_type
                 pipeline_id = message.pipeline_id
 
-            # We can only combine fragments if they are for the same target.
-            if pipeline_id != message.pipeline_id:
+            # We can only combine fragments if they are for the same target and stream.
+            if pipeline_id != message.pipeline_id or stream_type != message.stream_type:
                 break
 
             if amount is None:
-- 
2.43.0


From 6034419c92565800f538ba2c7346ff766f6fd85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:59 +0000
Subject: [PATCH 12/48] fix: do not send empty fragments when only the header
 fits in the payload

---
 src/psrpcore/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psrpcore/_base.py b/src/psrpcore/_base.py
index b0549c4..e1160b4 100644
--- a/src/psrpcore/_base.py
+++ b/src/psrpcore/_base.py
@@ -253,7 +253,7 @@ class RunspacePool(typing.Generic[T1]):
         # TODO: prioritise prompt_response over default if the last fragment was an end fragment.
 
         for message in list(self._send_buffer):
-            if amount is not None and amount < fragment_size:
+            if amount is not None and amount <= fragment_size:
                 break
 
             if not current_buffer:
-- 
2.43.0


From b3eed532ed4e43eec82db293a52d6053285c0b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:59 +0000
Subject: [PATCH 13/48] fix: wait for the full fragment before processing it

The data of a fragment that was received in parts was processed as if it was
complete or failed with a struct.error.
---
 src/psrpcore/_base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/psrpcore/_base.py b/src/psrpcore/_base.py
index e1160b4..897e526 100644
--- a/src/psrpcore/_base.py
+++ b/src/psrpcore/_base.py
@@ -315,7 +315,11 @@ class RunspacePool(typing.Generic[T1]):
                 data buffer or `None` if not enough data has been received.
         """
         # First unpacks the raw receive buffer into messages.
-        while self._receive_buffer:
+        while len(self._receive_buffer) >= 21:
+            fragment_length = int.from_bytes(self._receive_buffer[17:21], byteorder="big")
+            if len(self._receive_buffer) < 21 + fragment_length:
+                break
+
             fragment = unpack_fragment(self._receive_buffer)
             log.debug(
                 "Unpacked fragment - OID: %s, FID: %s, Start: %s, End: %s, Length: %s",
-- 
2.43.0


From e27d624f288f6a8291f91f86d4f48179088c63c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:15 +0000
Subject: [PATCH 14/48] fix: do not lose a received message when its object id
 is reused

The object ids are only unique for the lifetime of a connection, the server
starts back at 1 after connect(). A message that was received but not yet
processed was overwritten by a newer one with the same object id.
---
 src/psrpcore/_base.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/psrpcore/_base.py b/src/psrpcore/_base.py
index 897e526..f223813 100644
--- a/src/psrpcore/_base.py
+++ b/src/psrpcore/_base.py
@@ -145,7 +145,7 @@ class RunspacePool(typing.Generic[T1]):
         self._incoming_fragments: typing.Dict[int, typing.List[bytearray]] = {}
 
         # Messages from combined fragments that have been received but not yet returned.
-        self._incoming_messages: typing.Dict[int, PSRPMessage] = {}
+        self._incoming_messages: typing.List[PSRPMessage] = []
 
     @property
     def max_runspaces(
@@ -343,13 +343,12 @@ class RunspacePool(typing.Generic[T1]):
                 message = PSRPMessage(
                     raw_message.message_type, raw_message.data, raw_message.rpid, raw_message.pid, fragment.object_id
                 )
-                self._incoming_messages[fragment.object_id] = message
+                self._incoming_messages.append(message)
                 del self._incoming_fragments[fragment.object_id]
 
-        for object_id in list(self._incoming_messages.keys()):
-            message = self._incoming_messages[object_id]
+        if self._incoming_messages:
             # In case of a failure it is expected for the client to receive the correct data instead
-            del self._incoming_messages[object_id]
+            message = self._incoming_messages.pop(0)
 
             event = self._process_message(message)
 
-- 
2.43.0


From 1cb1c6443fb52e613cf3964f3720c2af84cf273d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:15 +0000
Subject: [PATCH 15/48] fix: drop partially received messages when a new client
 connects

The object ids of the new client start back at 1, the fragments left behind by
the previous client caused the messages with the same object id to fail.
---
 src/psrpcore/_server.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/psrpcore/_server.py b/src/psrpcore/_server.py
index fca9014..86a742d 100644
--- a/src/psrpcore/_server.py
+++ b/src/psrpcore/_server.py
@@ -111,8 +111,11 @@ class ServerRunspacePool(RunspacePool["ServerPipeline"]):
                 "accept Runspace Pool connections", self.state, [RunspacePoolState.Disconnected]
             )
 
-        # The incoming messages will be from a blank runspace pool so start back at 1
-        # TODO: Verify there are no incoming fragments/messages not processed.
+        # The incoming messages will be from a blank runspace pool so start back at 1. Any partial message from the
+        # previous client will never be completed.
+        # TODO: Verify there are no incoming messages not processed.
+        self._receive_buffer.clear()
+        self._incoming_fragments.clear()
         self._ci_count = 1
         self._fragment_count = 1
         self._change_state(RunspacePoolState.Connecting)
-- 
2.43.0


From 4b9b8398dab8b4e3f5a9a9648b81030f3ca5cac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:15 +0000
Subject: [PATCH 16/48] fix: always write the CLIXML marker before the first
 output

Calling data_to_send() before anything was written dropped the marker from the
actual output.
---
 src/psrpcore/_clixml_shell.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/psrpcore/_clixml_shell.py b/src/psrpcore/_clixml_shell.py
index 5580245..eb85838 100644
--- a/src/psrpcore/_clixml_shell.py
+++ b/src/psrpcore/_clixml_shell.py
@@ -318,15 +318,11 @@ class ClixmlShell:
         Returns:
             str: The string to write to stdout.
         """
-        if self._written_marker:
-            prefix = "\n"
-        else:
-            prefix = "#< CLIXML\n"
-            self._written_marker = True
-
         stdout = ""
         if self._stdout:
+            prefix = "\n" if self._written_marker else "#< CLIXML\n"
             stdout = f"{prefix}{serialize_clixml(self._stdout, self._cipher)}"
+            self._written_marker = True
             self._stdout = []
 
         return stdout
-- 
2.43.0


From 567bce3836333fa6c1929681c1e845504a7915c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:56 +0000
Subject: [PATCH 17/48] fix: encrypt a received secure string again when
 sending it to another connection

A secure string that was received from one Runspace Pool and then sent to another
was sent with the ciphertext of the first session key.
---
 src/psrpcore/types/_primitive.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/psrpcore/types/_primitive.py b/src/psrpcore/types/_primitive.py
index 34bbeeb..d3c4bef 100644
--- a/src/psrpcore/types/_primitive.py
+++ b/src/psrpcore/types/_primitive.py
@@ -1230,10 +1230,10 @@ class PSSecureString(PSObject):
         cipher: PSCryptoProvider,
         **kwargs: typing.Any,
     ) -> PSObject:
-        if not instance._encrypted:
-            # The value was provided by the user without a cipher. Use the one passed in by the serializer to encrypt
-            # the value and return that for serialization.
-            return cls(cipher.encrypt(instance._value), cipher)
+        if instance._cipher is not cipher:
+            # The value was provided by the user without a cipher or was encrypted for another connection. Use the one
+            # passed in by the serializer to encrypt the value and return that for serialization.
+            return cls(cipher.encrypt(str(instance.decrypt())), cipher)
 
         else:
             return instance
-- 
2.43.0


From 94b6d44925a8e692f79a6d8d5c15749573e4cfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:56 +0000
Subject: [PATCH 18/48] fix: make PSDuration and PSVersion hashable

A dictionary with a System.TimeSpan or System.Version key could not be
deserialized.
---
 src/psrpcore/types/_primitive.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/psrpcore/types/_primitive.py b/src/psrpcore/types/_primitive.py
index d3c4bef..5949792 100644
--- a/src/psrpcore/types/_primitive.py
+++ b/src/psrpcore/types/_primitive.py
@@ -537,6 +537,9 @@ class PSDuration(PSObject, datetime.timedelta):
     ) -> bool:
         return _timedelta_total_nanoseconds(self) == _timedelta_total_nanoseconds(other)
 
+    def __hash__(self) -> int:
+        return datetime.timedelta.__hash__(self)
+
     @_ensure_types_and_self(datetime.timedelta)
     def __ne__(
         self,
@@ -1065,6 +1068,9 @@ class PSVersion(PSObject):
 
         return self._cmp(other, operator.eq, "==")
 
+    def __hash__(self) -> int:
+        return hash(str(self))
+
     def __ge__(
         self,
         other: typing.Union["PSVersion", str],
-- 
2.43.0


From b09b794770ce723d6871a1a91dd051d5f60b8fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:56 +0000
Subject: [PATCH 19/48] fix: reject a bool response for an available runspaces
 request

A bool is an int in Python but it is sent to the client as the response to a
set runspaces request.
---
 src/psrpcore/_server.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/psrpcore/_server.py b/src/psrpcore/_server.py
index 86a742d..f27b23c 100644
--- a/src/psrpcore/_server.py
+++ b/src/psrpcore/_server.py
@@ -277,7 +277,9 @@ class ServerRunspacePool(RunspacePool["ServerPipeline"]):
         ):
             raise PSRPCoreError(f"Response for this event expects a bool not {type(response).__name__}")
 
-        if isinstance(event, GetAvailableRunspacesEvent) and not isinstance(response, int):
+        if isinstance(event, GetAvailableRunspacesEvent) and (
+            isinstance(response, bool) or not isinstance(response, int)
+        ):
             raise PSRPCoreError(f"Response for this event expects an int not {type(response).__name__}")
 
         del self._ci_events[ci]
-- 
2.43.0


From bce12f901918a74aa388567096f212062d60e8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:56 +0000
Subject: [PATCH 20/48] fix: keep the nanoseconds when creating a PSDateTime
 from another one

---
 src/psrpcore/types/_primitive.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/psrpcore/types/_primitive.py b/src/psrpcore/types/_primitive.py
index 5949792..8a8d2db 100644
--- a/src/psrpcore/types/_primitive.py
+++ b/src/psrpcore/types/_primitive.py
@@ -344,6 +344,7 @@ class PSDateTime(PSObject, datetime.datetime):
 
         if args and isinstance(args[0], datetime.datetime):
             dt = args[0]
+            nanosecond = nanosecond or getattr(dt, "nanosecond", 0)
             instance = super().__new__(
                 cls,
                 dt.year,
-- 
2.43.0


From 89be1fbb356940ce9c11ac335b87426639012e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:43 +0000
Subject: [PATCH 21/48] fix: accept a reused object id after a message that
 could not be unpacked

---
 src/psrpcore/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psrpcore/_base.py b/src/psrpcore/_base.py
index f223813..8ffc1fd 100644
--- a/src/psrpcore/_base.py
+++ b/src/psrpcore/_base.py
@@ -339,12 +339,12 @@ class RunspacePool(typing.Generic[T1]):
             buffer.append(fragment.data)
 
             if fragment.end:
+                del self._incoming_fragments[fragment.object_id]
                 raw_message = unpack_message(bytearray(b"".join(buffer)))
                 message = PSRPMessage(
                     raw_message.message_type, raw_message.data, raw_message.rpid, raw_message.pid, fragment.object_id
                 )
                 self._incoming_messages.append(message)
-                del self._incoming_fragments[fragment.object_id]
 
         if self._incoming_messages:
             # In case of a failure it is expected for the client to receive the correct data instead
-- 
2.43.0


From 53799c842fa3beaefbcbd07b7e28d6c1a49aaabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:44 +0000
Subject: [PATCH 22/48] fix: refuse the connect message of a client for another
 Runspace Pool

---
 src/psrpcore/_server.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/psrpcore/_server.py b/src/psrpcore/_server.py
index f27b23c..63bd9d0 100644
--- a/src/psrpcore/_server.py
+++ b/src/psrpcore/_server.py
@@ -323,6 +323,9 @@ class ServerRunspacePool(RunspacePool["ServerPipeline"]):
         self,
         event: ConnectRunspacePoolEvent,
     ) -> None:
+        if self.state == RunspacePoolState.Connecting and self.runspace_pool_id != event.runspace_pool_id:
+            raise PSRPCoreError("Incoming connection is targeted towards a different Runspace Pool")
+
         # FIXME: Verify this behaviour when the props aren't set or when invalid ones are
         self._max_runspaces = event.max_runspaces or self.max_runspaces
         self._min_runspaces = event.min_runspaces or self.min_runspaces
-- 
2.43.0


From bfbe9d63ca6e36fe09ef6383fc7fa2f0b0fd0ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:10 +0000
Subject: [PATCH 23/48] fix: create a PSChar from half of a surrogate pair

---
 src/psrpcore/types/_primitive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_primitive.py b/src/psrpcore/types/_primitive.py
index 8a8d2db..be28c1e 100644
--- a/src/psrpcore/types/_primitive.py
+++ b/src/psrpcore/types/_primitive.py
@@ -272,7 +272,7 @@ class PSChar(PSObject, int):
 
         if isinstance(raw_args[0], str):
             # Ensure we are dealing with a UTF-8 string before converting to UTF-16
-            b_value = raw_args[0].encode("utf-16-le")
+            b_value = raw_args[0].encode("utf-16-le", errors="surrogatepass")
             if len(b_value) > 2:
                 raise ValueError("A PSChar must be 1 UTF-16 codepoint.")
 
-- 
2.43.0


From c5814a69c90a712b851a4ea172d96893b418c7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:10 +0000
Subject: [PATCH 24/48] fix: refuse empty text for a PSChar with a ValueError

---
 src/psrpcore/types/_primitive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_primitive.py b/src/psrpcore/types/_primitive.py
index be28c1e..a800378 100644
--- a/src/psrpcore/types/_primitive.py
+++ b/src/psrpcore/types/_primitive.py
@@ -273,7 +273,7 @@ class PSChar(PSObject, int):
         if isinstance(raw_args[0], str):
             # Ensure we are dealing with a UTF-8 string before converting to UTF-16
             b_value = raw_args[0].encode("utf-16-le", errors="surrogatepass")
-            if len(b_value) > 2:
+            if len(b_value) != 2:
                 raise ValueError("A PSChar must be 1 UTF-16 codepoint.")
 
             raw_args[0] = struct.unpack("<H", b_value)[0]
-- 
2.43.0


From 7d5e975df502f958c618817176f6a4089febc994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:06 +0000
Subject: [PATCH 25/48] fix: keep the STA apartment state given for a pipeline

---
 src/psrpcore/_client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psrpcore/_client.py b/src/psrpcore/_client.py
index 1c29340..8ca3eeb 100644
--- a/src/psrpcore/_client.py
+++ b/src/psrpcore/_client.py
@@ -555,7 +555,7 @@ class ClientPowerShell(_ClientPipeline):
         super().__init__(runspace_pool=runspace_pool, pipeline_id=pipeline_id)
         self.metadata: PowerShell = PowerShell(
             add_to_history=add_to_history,
-            apartment_state=apartment_state or runspace_pool.apartment_state,
+            apartment_state=runspace_pool.apartment_state if apartment_state is None else apartment_state,
             history=history,
             host=host,
             is_nested=is_nested,
-- 
2.43.0


From eeac978f7117078bbafa87dc2d996e4638fa9d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:06 +0000
Subject: [PATCH 26/48] fix: keep the runspace request pending if the response
 cannot be sent

---
 src/psrpcore/_server.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/psrpcore/_server.py b/src/psrpcore/_server.py
index 63bd9d0..4306843 100644
--- a/src/psrpcore/_server.py
+++ b/src/psrpcore/_server.py
@@ -282,13 +282,13 @@ class ServerRunspacePool(RunspacePool["ServerPipeline"]):
         ):
             raise PSRPCoreError(f"Response for this event expects an int not {type(response).__name__}")
 
+        self.prepare_message(RunspaceAvailability(SetMinMaxRunspacesResponse=response, ci=ci))
+
         del self._ci_events[ci]
         handler = self._ci_handlers.pop(ci, None)
         if handler and response is True:
             handler(event)
 
-        self.prepare_message(RunspaceAvailability(SetMinMaxRunspacesResponse=response, ci=ci))
-
     def receive_data(
         self,
         data: PSRPPayload,
-- 
2.43.0


From 8f5c5a3493b62e33a74793fdb79b16e4504c92f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:06 +0000
Subject: [PATCH 27/48] fix: do not change the Runspace Pool state if the state
 message cannot be sent

---
 src/psrpcore/_server.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/psrpcore/_server.py b/src/psrpcore/_server.py
index 4306843..2265d41 100644
--- a/src/psrpcore/_server.py
+++ b/src/psrpcore/_server.py
@@ -304,8 +304,6 @@ class ServerRunspacePool(RunspacePool["ServerPipeline"]):
         error: typing.Optional[ErrorRecord] = None,
         emit: bool = True,
     ) -> None:
-        super()._change_state(state, error)
-
         # (Dis)connection states aren't sent to the client
         if emit and state not in [
             RunspacePoolState.Disconnected,
@@ -319,6 +317,8 @@ class ServerRunspacePool(RunspacePool["ServerPipeline"]):
                 state_kwargs["ExceptionAsErrorRecord"] = error
             self.prepare_message(RunspacePoolStateMsg(**state_kwargs))
 
+        super()._change_state(state, error)
+
     def _process_ConnectRunspacePool(
         self,
         event: ConnectRunspacePoolEvent,
-- 
2.43.0


From 5a8fcf8feeb623b493f3991e2fbd139a0233303e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:45 +0000
Subject: [PATCH 28/48] fix: send None as pipeline input and not as pipeline
 output

---
 src/psrpcore/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psrpcore/_base.py b/src/psrpcore/_base.py
index 8ffc1fd..7482e31 100644
--- a/src/psrpcore/_base.py
+++ b/src/psrpcore/_base.py
@@ -377,7 +377,7 @@ class RunspacePool(typing.Generic[T1]):
                 targets the runspace pool.
             stream_type: The stream type the message is for.
         """
-        if message is None:
+        if message is None and message_type in [None, PSRPMessageType.PipelineOutput]:
             b_data = b""
             message_type = PSRPMessageType.PipelineOutput
 
-- 
2.43.0


From 9be0aca77f6b2189da1621af081365fe535b116a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:04 +0000
Subject: [PATCH 29/48] fix: accept a record with invocation info that has no
 command origin

---
 src/psrpcore/types/_complex.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_complex.py b/src/psrpcore/types/_complex.py
index b34a45e..6fddf70 100644
--- a/src/psrpcore/types/_complex.py
+++ b/src/psrpcore/types/_complex.py
@@ -621,6 +621,10 @@ def _invocation_info_from_ps_object(
         else:  # pragma: no cover
             ps_script_root = ntpath.dirname(ps_command_path)
 
+    command_origin = obj.InvocationInfo_CommandOrigin
+    if command_origin is not None:
+        command_origin = CommandOrigin(command_origin)
+
     my_command = None
     command_type = getattr(obj, "CommandInfo_CommandType", None)
     if command_type is not None:
@@ -633,7 +637,7 @@ def _invocation_info_from_ps_object(
 
     return InvocationInfo(
         BoundParameters=getattr(obj, "InvocationInfo_BoundParameters", None) or PSDict(),
-        CommandOrigin=CommandOrigin(obj.InvocationInfo_CommandOrigin),
+        CommandOrigin=command_origin,
         DisplayScriptPosition=display_script_position,
         ExpectingInput=obj.InvocationInfo_ExpectingInput,
         HistoryId=obj.InvocationInfo_HistoryId,
-- 
2.43.0


From 3a1e851b15f0abc6ee8383c917051b2181099506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:46 +0000
Subject: [PATCH 30/48] fix: a version is not equal to text that is no version

---
 src/psrpcore/types/_primitive.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/psrpcore/types/_primitive.py b/src/psrpcore/types/_primitive.py
index a800378..9f8eb69 100644
--- a/src/psrpcore/types/_primitive.py
+++ b/src/psrpcore/types/_primitive.py
@@ -1067,6 +1067,9 @@ class PSVersion(PSObject):
         if not isinstance(other, (PSVersion, str)):
             return False
 
+        if isinstance(other, str) and not _VERSION_PATTERN.match(other):
+            return False
+
         return self._cmp(other, operator.eq, "==")
 
     def __hash__(self) -> int:
-- 
2.43.0


From 30a3663dd331f2fc4cd2e78dd9fb7256b857ae58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:40 +0000
Subject: [PATCH 31/48] fix: keep the nanoseconds when a date-time is the right
 operand

---
 src/psrpcore/types/_primitive.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/psrpcore/types/_primitive.py b/src/psrpcore/types/_primitive.py
index 9f8eb69..206140b 100644
--- a/src/psrpcore/types/_primitive.py
+++ b/src/psrpcore/types/_primitive.py
@@ -395,18 +395,24 @@ class PSDateTime(PSObject, datetime.datetime):
         other: datetime.timedelta,
     ) -> "PSDateTime":
         nanosecond_diff = self.nanosecond + getattr(other, "nanoseconds", 0)
-        new_date = PSDateTime(super().__add__(other))
 
         # If the nanoseconds exceed 1000 we need to add the microseconds to our new date before setting the nanosecond
         # property.
         if nanosecond_diff > 999:
             microseconds, nanosecond_diff = divmod(nanosecond_diff, 1000)
-            new_date += datetime.timedelta(microseconds=microseconds)
+            other = other + datetime.timedelta(microseconds=microseconds)
 
+        new_date = PSDateTime(super().__add__(other))
         new_date.nanosecond = nanosecond_diff
 
         return new_date
 
+    def __radd__(
+        self,
+        other: datetime.timedelta,
+    ) -> "PSDateTime":
+        return self + other
+
     def __sub__(  # type: ignore[override] # cannot seem to document NotImplemented as a return type
         self,
         other: typing.Union[datetime.datetime, datetime.timedelta],
-- 
2.43.0


From f5f5c36c1054e4ff9ae1b71d08981175fa229013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:40 +0000
Subject: [PATCH 32/48] fix: keep the nanoseconds of a duration in timedelta +
 duration, abs() and bool()

---
 src/psrpcore/types/_primitive.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/psrpcore/types/_primitive.py b/src/psrpcore/types/_primitive.py
index 206140b..317e517 100644
--- a/src/psrpcore/types/_primitive.py
+++ b/src/psrpcore/types/_primitive.py
@@ -516,6 +516,13 @@ class PSDuration(PSObject, datetime.timedelta):
         new_nano = _timedelta_total_nanoseconds(self) + _timedelta_total_nanoseconds(other)
         return PSDuration(nanoseconds=new_nano)
 
+    @_ensure_types_and_self(datetime.timedelta)
+    def __radd__(
+        self,
+        other: datetime.timedelta,
+    ) -> "PSDuration":
+        return self + other
+
     @_ensure_types_and_self(datetime.timedelta)
     def __sub__(
         self,
@@ -537,6 +544,12 @@ class PSDuration(PSObject, datetime.timedelta):
     def __pos__(self) -> "PSDuration":
         return self
 
+    def __abs__(self) -> "PSDuration":
+        return PSDuration(nanoseconds=abs(_timedelta_total_nanoseconds(self)))
+
+    def __bool__(self) -> bool:
+        return _timedelta_total_nanoseconds(self) != 0
+
     @_ensure_types_and_self(datetime.timedelta)
     def __eq__(
         self,
-- 
2.43.0


From 3e7e1ee6e293db4de6adb0477ad1b1422964c60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:40 +0000
Subject: [PATCH 33/48] fix: do not grow the list of operand types with every
 operation

---
 src/psrpcore/types/_primitive.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/psrpcore/types/_primitive.py b/src/psrpcore/types/_primitive.py
index 317e517..eb2bd7b 100644
--- a/src/psrpcore/types/_primitive.py
+++ b/src/psrpcore/types/_primitive.py
@@ -52,8 +52,7 @@ def _ensure_types_and_self(
 
     def decorator(func: typing.Callable) -> typing.Callable:
         def wrapped(self: PSObject, other: object) -> typing.Any:
-            types_to_check.append(type(self))
-            if not isinstance(other, tuple(types_to_check)):
+            if not isinstance(other, (*types_to_check, type(self))):
                 return NotImplemented
 
             return func(self, other)
-- 
2.43.0


From e71866b5c473ae9944cd151803d395d59a777864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:20 +0000
Subject: [PATCH 34/48] fix: check the range of an integer created from an enum

---
 src/psrpcore/types/_primitive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_primitive.py b/src/psrpcore/types/_primitive.py
index eb2bd7b..02c16ce 100644
--- a/src/psrpcore/types/_primitive.py
+++ b/src/psrpcore/types/_primitive.py
@@ -123,7 +123,7 @@ class PSIntegerBase(PSObject, int):
 
         if cls != type(num):
             # If the value is not the exact instance recreate it from an actual int.
-            return super().__new__(cls, int(num))
+            num = super().__new__(cls, int(num))
 
         int_num = int(num)
 
-- 
2.43.0


From 0faf3b3f4f14bf417f9a81ed6ab8fa418bf94e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:41 +0000
Subject: [PATCH 35/48] fix: read properties in document order so that elements
 can refer to them

---
 src/psrpcore/types/_serializer.py | 71 ++++++++++++++-----------------
 1 file changed, 32 insertions(+), 39 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 7141359..c9a7f7b 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -1055,28 +1055,44 @@ class _Serializer:
         elif issubclass(rehydrated_value, (PSEnumBase, PSFlagBase)):
             original_type_names = rehydrated_value.PSObject.type_names
 
-        props: typing.Dict[str, typing.Optional[ElementTree.Element]] = {
-            "adapted_properties": None,
-            "extended_properties": None,
+        # The properties are set once the final value is known but they need to be deserialized in the order they appear
+        # as the remaining elements can refer to objects and type names that are defined in a property.
+        props: typing.Dict[str, typing.List[typing.Tuple[str, typing.Any]]] = {
+            "adapted_properties": [],
+            "extended_properties": [],
         }
         to_string = None
-        for obj_entry in element:
-            if obj_entry.tag == "Props":
-                props["adapted_properties"] = obj_entry
 
-            elif obj_entry.tag == "MS":
-                props["extended_properties"] = obj_entry
+        # The container is created first so that anything inside the element can refer to it.
+        container_base: typing.Type[PSObject]
+        container_type: typing.Type[PSObject]
+        for container_base, container_type in [
+            (PSDictBase, PSDict),
+            (PSQueueBase, PSQueue),
+            (_PSListBase, PSIEnumerable),
+            (_PSListBase, PSList),
+            (_PSListBase, PSStack),
+        ]:
+            if element.find(self._type_to_element[container_type]) is None:
+                continue
+
+            if not isinstance(value, container_base):
+                value = self._update_value_ref(container_type(), ref_id)
+
+            elif container_base != PSQueueBase:
+                value = self._update_value_ref(type(value)(), ref_id)
+
+        for obj_entry in element:
+            if obj_entry.tag in ["Props", "MS"]:
+                prop_group = props["adapted_properties" if obj_entry.tag == "Props" else "extended_properties"]
+                for obj_property in obj_entry:
+                    prop_name = _deserialize_string(obj_property.attrib["N"])
+                    prop_group.append((prop_name, self.deserialize(obj_property)))
 
             elif obj_entry.tag == "ToString":
                 to_string = self.deserialize(obj_entry)
 
             elif obj_entry.tag == self._type_to_element[PSDict]:
-                dict_type: typing.Type[PSDictBase] = PSDict
-                if isinstance(value, PSDictBase):
-                    dict_type = type(value)
-
-                value = self._update_value_ref(dict_type(), ref_id)
-
                 for dict_entry in obj_entry:
                     dict_key = dict_entry.find('*/[@N="Key"]')
                     dict_value = dict_entry.find('*/[@N="Value"]')
@@ -1089,9 +1105,6 @@ class _Serializer:
                     value[self.deserialize(dict_key)] = self.deserialize(dict_value)
 
             elif obj_entry.tag == self._type_to_element[PSQueue]:
-                if not isinstance(value, PSQueueBase):
-                    value = self._update_value_ref(PSQueue(), ref_id)
-
                 for queue_entry in obj_entry:
                     value.put(self.deserialize(queue_entry))
 
@@ -1100,21 +1113,6 @@ class _Serializer:
                 self._type_to_element[PSList],
                 self._type_to_element[PSStack],
             ]:
-                list_type: typing.Type[_PSListBase]
-
-                if obj_entry.tag == self._type_to_element[PSIEnumerable]:
-                    list_type = PSIEnumerable
-
-                elif obj_entry.tag == self._type_to_element[PSList]:
-                    list_type = PSList
-
-                else:
-                    list_type = PSStack
-
-                if isinstance(value, _PSListBase):
-                    list_type = type(value)
-
-                value = self._update_value_ref(list_type(), ref_id)
                 for list_entry in obj_entry:
                     value.append(self.deserialize(list_entry))
 
@@ -1140,17 +1138,12 @@ class _Serializer:
             if original_type_names:
                 value.PSObject.type_names = original_type_names
 
-            for prop_group_name, prop_xml in props.items():
-                if prop_xml is None:
-                    continue
-
+            for prop_group_name, prop_values in props.items():
                 # add_note_property only sets to extended properties. We just use the actual prop list as the scratch
                 # object's extended properties. Anything modified/added will reflect in our actual object property.
                 scratch_obj = PSCustomObject()
                 scratch_obj.PSObject.extended_properties = getattr(value.PSObject, prop_group_name)
-                for obj_property in prop_xml:
-                    prop_name = _deserialize_string(obj_property.attrib["N"])
-                    prop_value = self.deserialize(obj_property)
+                for prop_name, prop_value in prop_values:
                     add_note_property(scratch_obj, prop_name, prop_value, force=True)
 
         # Final override that allows classes to transform the raw CLIXML deserialized object to something more human
-- 
2.43.0


From 0eac6f199efe755821e61dd345ca6c426a63757c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:40 +0000
Subject: [PATCH 36/48] fix: reference an extended integer or byte array that
 was already serialized

---
 src/psrpcore/types/_serializer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index c9a7f7b..9ae5c8b 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -1172,6 +1172,9 @@ class _Serializer:
             if isinstance(value, enum.Enum):
                 ref_id = self._obj_ref_enum.setdefault(id(value), next_ref_id)
 
+            elif isinstance(value, PSObject) and isinstance(value, (int, bytes)):
+                ref_id = self._obj_ref.setdefault(id(value), (next_ref_id, value))[0]
+
             else:
                 ref_id = next_ref_id
 
-- 
2.43.0


From b2585860cd9fd5459060f64d12f814d3fcb68f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:57 +0000
Subject: [PATCH 37/48] fix: list a flag with two names once in the text of the
 flags

---
 src/psrpcore/types/_serializer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 9ae5c8b..7265def 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -567,7 +567,8 @@ def _serialize_enum_to_string(
     flags: typing.List[enum.Enum]
 
     if isinstance(value, enum.Flag):
-        flags = [getattr(value, f) for f in type(value).__members__ if getattr(value, f) in value]
+        # A member with another name for the same value is only listed once.
+        flags = list(dict.fromkeys(getattr(value, f) for f in type(value).__members__ if getattr(value, f) in value))
     else:
         flags = [value]
 
-- 
2.43.0


From b1d34107a2dea2b7176ebceedeb4cd8841bb6e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:33 +0000
Subject: [PATCH 38/48] fix: do not attach what was received with an enum value
 to its class

---
 src/psrpcore/types/_serializer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 7265def..a85e125 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -1131,10 +1131,12 @@ class _Serializer:
 
                     value = self._update_value_ref(new_value, ref_id)
 
-        if to_string is not None:
+        # The members of an enum share the PSObject of their class, what is set on one would be seen on all of them.
+        is_enum = isinstance(value, enum.Enum)
+        if to_string is not None and not is_enum:
             value.PSObject.to_string = to_string
 
-        if isinstance(value, PSObject):
+        if isinstance(value, PSObject) and not is_enum:
             # Ensure the object's type names are what was in the CLIXML
             if original_type_names:
                 value.PSObject.type_names = original_type_names
-- 
2.43.0


From a905bc4dc8e5c1c760db48c0d6f7e3cb6821b1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:33 +0000
Subject: [PATCH 39/48] fix: write a combination of flags with the integer type
 of the flags

---
 src/psrpcore/types/_enum.py       | 1 +
 src/psrpcore/types/_serializer.py | 7 ++++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_enum.py b/src/psrpcore/types/_enum.py
index 3ba7408..4b74a82 100644
--- a/src/psrpcore/types/_enum.py
+++ b/src/psrpcore/types/_enum.py
@@ -67,6 +67,7 @@ class PSEnumMeta(enum.EnumMeta):
         )
         setattr(cls, "MinValue", base_type.MinValue)
         setattr(cls, "MaxValue", base_type.MaxValue)
+        setattr(cls, "_ps_base_type", base_type)
         return cls
 
 
diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index a85e125..ea612fd 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -706,7 +706,12 @@ class _Serializer:
 
         # We initially serialize the enum based on the raw value.
         elif is_enum:
-            element = self.serialize(value.value)
+            enum_value = value.value
+            if isinstance(value, PSFlagBase):
+                # Python creates the combination of flags with an int and not the base type of the flags.
+                enum_value = value._ps_base_type(enum_value)
+
+            element = self.serialize(enum_value)
 
         # Integer types
         elif isinstance(
-- 
2.43.0


From 673fde889849d7a10afda6a75e776348dcc52e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:50 +0000
Subject: [PATCH 40/48] fix: allow flags of an unsigned integer type to be
 combined and inverted

---
 src/psrpcore/types/_enum.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/psrpcore/types/_enum.py b/src/psrpcore/types/_enum.py
index 4b74a82..90f5779 100644
--- a/src/psrpcore/types/_enum.py
+++ b/src/psrpcore/types/_enum.py
@@ -15,6 +15,16 @@ from psrpcore.types._base import PSType
 from psrpcore.types._primitive import PSInt, PSIntegerBase
 
 
+def _invert_flag(flag: typing.Any) -> typing.Any:
+    """Get the flags that are not set in the value specified."""
+    cls = type(flag)
+    mask = 0
+    for member in cls.__members__.values():
+        mask |= int(member)
+
+    return cls(mask & ~int(flag))
+
+
 class PSEnumMeta(enum.EnumMeta):
     """The meta type for all PowerShell enum objects.
 
@@ -59,6 +69,10 @@ class PSEnumMeta(enum.EnumMeta):
 
         namespace["__new__"] = new
 
+        if sys.version_info[:2] >= (3, 11) and any(issubclass(b, enum.Flag) for b in bases):
+            # Python inverts the value itself but an unsigned PS integer cannot be inverted.
+            namespace.setdefault("__invert__", _invert_flag)
+
         cls = super().__new__(
             mcls,
             name,
@@ -148,6 +162,17 @@ class PSFlagBase(PSIntegerBase, enum.Flag, metaclass=PSEnumMeta):
         def _create_pseudo_member_(cls, value):  # type: ignore[no-untyped-def]
             return enum.IntFlag._create_pseudo_member_.__func__(cls, value)  # type: ignore[attr-defined]
 
+    else:
+
+        @classmethod
+        def _missing_(cls, value):  # type: ignore[no-untyped-def]
+            # Python inverts the value to find its members but an unsigned PS integer cannot be inverted.
+            member = super()._missing_(int(value) if isinstance(value, PSIntegerBase) else value)
+            if isinstance(member, cls):
+                member._value_ = cls._ps_base_type(member._value_)
+
+            return member
+
     def __or__(self, other):  # type: ignore[no-untyped-def]
         return enum.IntFlag.__or__(self, other)  # type: ignore[type-var]
 
-- 
2.43.0


From 8f7c09c08e0f1ed3c533e4df5bae58d12f607b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:49 +0000
Subject: [PATCH 41/48] fix: keep the nanoseconds when a date-time is
 subtracted from a plain one

---
 src/psrpcore/types/_primitive.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/psrpcore/types/_primitive.py b/src/psrpcore/types/_primitive.py
index 02c16ce..85f0434 100644
--- a/src/psrpcore/types/_primitive.py
+++ b/src/psrpcore/types/_primitive.py
@@ -423,6 +423,15 @@ class PSDateTime(PSObject, datetime.datetime):
         nanosecond_diff = self.nanosecond - getattr(other, "nanosecond", 0)
         return duration + PSDuration(nanoseconds=nanosecond_diff)
 
+    def __rsub__(  # type: ignore[override] # cannot seem to document NotImplemented as a return type
+        self,
+        other: datetime.datetime,
+    ) -> "PSDuration":
+        if not isinstance(other, datetime.datetime):
+            return NotImplemented
+
+        return -(self - other)  # type: ignore[operator,return-value]
+
     @classmethod
     def strptime(
         cls,
-- 
2.43.0


From d24ff07b14e46bbb0310c97209e7d1d87ae4795b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:13 +0000
Subject: [PATCH 42/48] fix: read a CLIXML string without any objects

---
 src/psrpcore/types/_serializer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index ea612fd..82b1add 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -184,6 +184,9 @@ def deserialize_clixml(
     # breaking our parser. It is easier to just strip it from the root Objs
     # element.
     objs_header_end_idx = clixml.find(">")
+    if clixml[:objs_header_end_idx].endswith("/"):
+        # There are no objects and the root element is also the closing tag.
+        objs_header_end_idx -= 1
     clixml = "<Objs" + clixml[objs_header_end_idx:]
 
     raw_clixml = ElementTree.fromstring(clixml)
-- 
2.43.0


From 5b394344f67e89b46ab6672557868e32093c6c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:51 +0000
Subject: [PATCH 43/48] fix: read a dictionary entry in document order, the
 value can refer to its key

---
 src/psrpcore/types/_serializer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 82b1add..57fa884 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -1111,7 +1111,9 @@ class _Serializer:
                     if dict_value is None:
                         raise ValueError("Failed to find dict Value attribute")
 
-                    value[self.deserialize(dict_key)] = self.deserialize(dict_value)
+                    # The key comes first, the value can refer to objects and type names that are defined in it.
+                    key = self.deserialize(dict_key)
+                    value[key] = self.deserialize(dict_value)
 
             elif obj_entry.tag == self._type_to_element[PSQueue]:
                 for queue_entry in obj_entry:
-- 
2.43.0


From 8e91e06ebfc8b6662c1af7e84e837714f3739a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:08 +0000
Subject: [PATCH 44/48] fix: reference a record that was already serialized
 instead of writing it again

---
 src/psrpcore/types/_serializer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 57fa884..21d8703 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -675,6 +675,9 @@ class _Serializer:
         is_enum = isinstance(value, enum.Enum)
         is_extended_primitive: typing.Optional[bool] = None
 
+        # The object that is referenced if it is serialized again, the ToPSObjectForRemoting result is always a new one.
+        ref_value = value
+
         # If the value type has a ToPSObjectForRemoting class method we use that to build our true PSObject that will
         # be serialized.
         if hasattr(value_type, "ToPSObjectForRemoting") and not isinstance(value, PSSecureString):
@@ -827,7 +830,7 @@ class _Serializer:
         if element is not None and not is_extended_primitive and not is_enum:
             return element
 
-        ref_id, use_ref = self._get_ref_id(value)
+        ref_id, use_ref = self._get_ref_id(ref_value)
         if use_ref:
             return ElementTree.Element("Ref", RefId=str(ref_id))
 
-- 
2.43.0


From a752f977841f9432dcda253495a878b4160b602c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:06 +0000
Subject: [PATCH 45/48] fix: read an extended boolean with type names or a text

---
 src/psrpcore/types/_serializer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 21d8703..504cf04 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -1138,15 +1138,15 @@ class _Serializer:
                     value = self._update_value_ref(rehydrated_value(new_value), ref_id)
 
                 else:
-                    # If the TypeRegister returned any types, set them on the new object name.
-                    if value.PSTypeNames:
+                    # If the TypeRegister returned any types, set them on the new object name. A bool cannot have any.
+                    if value.PSTypeNames and isinstance(new_value, PSObject):
                         new_value.PSObject.type_names = value.PSTypeNames
 
                     value = self._update_value_ref(new_value, ref_id)
 
         # The members of an enum share the PSObject of their class, what is set on one would be seen on all of them.
         is_enum = isinstance(value, enum.Enum)
-        if to_string is not None and not is_enum:
+        if to_string is not None and isinstance(value, PSObject) and not is_enum:
             value.PSObject.to_string = to_string
 
         if isinstance(value, PSObject) and not is_enum:
-- 
2.43.0


From adbfe0fc04e814cae7bab411c81db0882cc87b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:06 +0000
Subject: [PATCH 46/48] fix: write a decimal without an exponent

---
 src/psrpcore/types/_serializer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 504cf04..b38e503 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -755,7 +755,10 @@ class _Serializer:
                 xml_value = int(xml_value)
 
             element = ElementTree.Element(self._type_to_element[ps_type])
-            element.text = str(xml_value).upper()  # upper() needed for the Double and Single types.
+            if isinstance(xml_value, decimal.Decimal):
+                element.text = format(xml_value, "f")  # A decimal in XML cannot have an exponent.
+            else:
+                element.text = str(xml_value).upper()  # upper() needed for the Double and Single types.
 
         # Naive strings
         elif isinstance(
-- 
2.43.0


From 821ae1f4d48e6b57dbf5aefff841bf5483405b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:06 +0000
Subject: [PATCH 47/48] fix: write a floating point NaN as NaN, NAN is not
 valid

---
 src/psrpcore/types/_serializer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index b38e503..d65b0a4 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -758,7 +758,8 @@ class _Serializer:
             if isinstance(xml_value, decimal.Decimal):
                 element.text = format(xml_value, "f")  # A decimal in XML cannot have an exponent.
             else:
-                element.text = str(xml_value).upper()  # upper() needed for the Double and Single types.
+                # upper() needed for the Double and Single types, only NaN has to stay as is.
+                element.text = "NaN" if xml_value != xml_value else str(xml_value).upper()
 
         # Naive strings
         elif isinstance(
-- 
2.43.0


From e264a4f006264c13787d80f0b4a069669542ab54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:02 +0000
Subject: [PATCH 48/48] fix: keep error details with an empty message

---
 src/psrpcore/types/_complex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_complex.py b/src/psrpcore/types/_complex.py
index 6fddf70..2d3b6d4 100644
--- a/src/psrpcore/types/_complex.py
+++ b/src/psrpcore/types/_complex.py
@@ -832,7 +832,7 @@ class ErrorRecord(PSObject):
         error_details = None
         error_details_message = getattr(obj, "ErrorDetails_Message", None)
         error_details_action = getattr(obj, "ErrorDetails_RecommendedAction", None)
-        if error_details_message or error_details_action:
+        if error_details_message is not None or error_details_action is not None:
             error_details = ErrorDetails(
                 Message=error_details_message,
                 RecommendedAction=error_details_action,
-- 
2.43.0

