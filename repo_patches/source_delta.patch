From 871799045cdba67b9ca9a63830f52cd50d7621c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:08 +0000
Subject: [PATCH 001/113] fix: refuse HDLC frame lengths that do not fit the
 11-bit length subfield

---
 src/DLMS_SPODES/hdlc/frame.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/hdlc/frame.py b/src/DLMS_SPODES/hdlc/frame.py
index aa5e1a2..b73688f 100644
--- a/src/DLMS_SPODES/hdlc/frame.py
+++ b/src/DLMS_SPODES/hdlc/frame.py
@@ -38,7 +38,7 @@ class Format:
                 if self.type != 0xA:
                     raise FormatDataError(F'Frame format type not according HDLC Type 3, must be 0xA, got {hex(self.type)}')
         else:
-            if length.bit_length() <= 13:
+            if length.bit_length() <= 11:
                 value = length
                 if is_segmentation:
                     value |= 0b1010_1_00000000000
@@ -46,7 +46,7 @@ class Format:
                     value |= 0b1010_0_00000000000
                 self.__content = pack('>H', value)
             else:
-                raise ValueError(F'Frame length overflow, max be 2048, got {length}')
+                raise ValueError(F'Frame length overflow, max be 2047, got {length}')
 
     @property
     def content(self) -> bytes:
-- 
2.43.0


From 6607bfc4e11896b0be910cdb537a826009a471c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:08 +0000
Subject: [PATCH 002/113] fix: refuse HDLC addresses outside 0..16383 instead
 of truncating them

---
 src/DLMS_SPODES/hdlc/frame.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/DLMS_SPODES/hdlc/frame.py b/src/DLMS_SPODES/hdlc/frame.py
index b73688f..abb4bba 100644
--- a/src/DLMS_SPODES/hdlc/frame.py
+++ b/src/DLMS_SPODES/hdlc/frame.py
@@ -103,6 +103,7 @@ class Address:
     """
     __content: bytes
     __MASK: int = 0x3f80
+    __MAX: int = 0x3fff
 
     def __init__(self, content: bytes = None,
                  upper_address: int = None,
@@ -114,6 +115,9 @@ class Address:
             else:
                 self.__content = content
         else:
+            for address in (upper_address, lower_address):
+                if address is not None and not 0 <= address <= self.__MAX:
+                    raise ValueError(F"got HDLC address {address}, expected 0..{self.__MAX}")
             # calculate length
             if not lower_address:
                 if (upper_address & self.__MASK) == 0:
-- 
2.43.0


From d8f352de0a7b1c101626550ad4238f289df5c694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:08 +0000
Subject: [PATCH 003/113] fix: refuse three-octet HDLC address fields instead
 of reading four octets

---
 src/DLMS_SPODES/hdlc/frame.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/hdlc/frame.py b/src/DLMS_SPODES/hdlc/frame.py
index abb4bba..250a7e4 100644
--- a/src/DLMS_SPODES/hdlc/frame.py
+++ b/src/DLMS_SPODES/hdlc/frame.py
@@ -155,11 +155,12 @@ class Address:
 
     @classmethod
     def from_frame(cls, value: bytearray) -> Address:
-        for it in (0, 1, 3):
+        for it in (0, 1, 2, 3):
             if value[it] % 2 == 1:
                 match it:
                     case 0: new = cls(bytes(value[:1])); break
                     case 1: new = cls(bytes(value[:2])); break
+                    case 2: raise ValueError('HDLC address wrong, 3 octets are not supported')
                     case 3: new = cls(bytes(value[:4])); break
         else:
             raise ValueError('HDLC source address wrong, not found end bit')
-- 
2.43.0


From 8732ba1dd319275f5ee794cd4ca8282f21aad5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:08 +0000
Subject: [PATCH 004/113] fix: propose the receive window size, not the
 transmit one, as receive parameter

---
 src/DLMS_SPODES/hdlc/negotiation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/hdlc/negotiation.py b/src/DLMS_SPODES/hdlc/negotiation.py
index d4b99b6..71441af 100644
--- a/src/DLMS_SPODES/hdlc/negotiation.py
+++ b/src/DLMS_SPODES/hdlc/negotiation.py
@@ -120,7 +120,7 @@ class Negotiation(Info):
         if self.window_transmit != WINDOW_DEFAULT:
             window_pack(self.WINDOW_SIZE_TRANSMIT, self.window_transmit)
         if self.window_receive != WINDOW_DEFAULT:
-            window_pack(self.WINDOW_SIZE_RECEIVE, self.window_transmit)
+            window_pack(self.WINDOW_SIZE_RECEIVE, self.window_receive)
         if offset == 3:
             offset = 0
         else:
-- 
2.43.0


From 82a53fa237d261b2f82f546e63fae5e4b2587629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:08 +0000
Subject: [PATCH 005/113] fix: size the HDLC negotiation buffer for all four
 parameters in their longest form

---
 src/DLMS_SPODES/hdlc/negotiation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/hdlc/negotiation.py b/src/DLMS_SPODES/hdlc/negotiation.py
index 71441af..e05215e 100644
--- a/src/DLMS_SPODES/hdlc/negotiation.py
+++ b/src/DLMS_SPODES/hdlc/negotiation.py
@@ -4,7 +4,7 @@ from ..hdlc.frame import Info
 from struct import pack_into, unpack_from
 from typing import ClassVar
 
-MAX_CONTENT_LENGTH = 0x16
+MAX_CONTENT_LENGTH = 0x17
 FORMAT_IDENTIFIER = 0x81
 GROUP_IDENTIFIER = 0x80
 MAX_INFO_DEFAULT = 128
-- 
2.43.0


From 62faa4864642fc98c11c9f28f1659466307dfca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:50 +0000
Subject: [PATCH 006/113] fix: refuse a length prefix whose length octets are
 missing

---
 src/DLMS_SPODES/types/common_data_types.py | 2 ++
 src/DLMS_SPODES/types/useful_types.py      | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 6b003b4..0fc4ea1 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -67,6 +67,8 @@ def get_length_and_pdu(input_pdu: bytes) -> tuple[int, bytes]:
         raise ValueError('Value is empty')
     if bool(define_length & 0b10000000):
         content_start += define_length - 0x80
+        if len(input_pdu) < content_start:
+            raise ValueError(F'length prefix is cut off: got {len(input_pdu)} octets, expected {content_start}')
         length = int.from_bytes(input_pdu[1:content_start], 'big')
     else:
         length = define_length
diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index acd79bf..a5e1149 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -41,6 +41,8 @@ def get_length_and_pdu(input_pdu: bytes) -> tuple[int, bytes]:
         raise ValueError('in try getting length, got empty value')
     if bool(define_length & 0b10000000):
         content_start += define_length - 0x80
+        if len(input_pdu) < content_start:
+            raise ValueError(F'length prefix is cut off: got {len(input_pdu)} octets, expected {content_start}')
         length = int.from_bytes(input_pdu[1:content_start], 'big')
     else:
         length = define_length
-- 
2.43.0


From 97a913ee4872c24662dba3a8e7e43ba58e0dd1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:50 +0000
Subject: [PATCH 007/113] fix: keep every digit of an integer given as text

---
 src/DLMS_SPODES/types/common_data_types.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 0fc4ea1..a333626 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -463,7 +463,11 @@ class Digital(ABC):
             raise ValueError(F'value {value} out of range')
 
     def from_str(self, value: str) -> bytes:
-        return self.from_int(float(value))
+        try:
+            number = int(value)
+        except ValueError:
+            number = float(value)
+        return self.from_int(number)
 
     def clear(self):
         if self.DEFAULT:
-- 
2.43.0


From 4d4e4cef89759c094590a34fcb02b6c43dccf558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:23 +0000
Subject: [PATCH 008/113] fix: refuse foreign tags in date and time octet
 strings

---
 src/DLMS_SPODES/types/cosem_service_types.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/DLMS_SPODES/types/cosem_service_types.py b/src/DLMS_SPODES/types/cosem_service_types.py
index 3713f4e..df61990 100644
--- a/src/DLMS_SPODES/types/cosem_service_types.py
+++ b/src/DLMS_SPODES/types/cosem_service_types.py
@@ -95,9 +95,9 @@ class OctetStringDateTime(cdt.DateTime, tag=9, size=12):
 
     def __init__(self, value: bytes | bytearray | str | int | datetime.datetime | datetime.date | datetime.time = b'\x09\x0c\x07\xe4\x01\x01\xff\xff\xff\xff\xff\x80\x00\xff'):
         match value:  # TODO: common for all OctetDateTimes
-            case bytes() if value[1] == len(self): super().__init__(self.TAG+value[2:])
-            case bytes():                          raise ValueError(F'in create {self.__class__.__name__} got tag, size: {cdt.TAG(value[0])} {value[1]}, expected {self.TAG} {len(self)}')
-            case _:                                super().__init__(value)
+            case bytes() if value[:1] == self.TAG and value[1] == len(self): super().__init__(self.TAG+value[2:])
+            case bytes():                                                     raise ValueError(F'in create {self.__class__.__name__} got tag, size: {cdt.TAG(value[0])} {value[1]}, expected {self.TAG} {len(self)}')
+            case _:                                                           super().__init__(value)
 
     @property
     def encoding(self) -> bytes:
@@ -109,9 +109,9 @@ class OctetStringDate(cdt.Date, tag=9, size=5):
 
     def __init__(self, value: bytes | bytearray | str | int | datetime.datetime | datetime.date = b'\x09\x05\x07\xe4\x01\x01\xff'):
         match value:  # TODO: replace priority case
-            case bytes() if value[1] == len(self): super().__init__(self.TAG+value[2:])
-            case bytes():                          raise ValueError(F'in create {self.__class__.__name__} got tag, size: {cdt.TAG(value[0])} {value[1]}, expected {self.TAG} {len(self)}')
-            case _:                                super().__init__(value)
+            case bytes() if value[:1] == self.TAG and value[1] == len(self): super().__init__(self.TAG+value[2:])
+            case bytes():                                                     raise ValueError(F'in create {self.__class__.__name__} got tag, size: {cdt.TAG(value[0])} {value[1]}, expected {self.TAG} {len(self)}')
+            case _:                                                           super().__init__(value)
 
     @property
     def encoding(self) -> bytes:
@@ -123,9 +123,9 @@ class OctetStringTime(cdt.Time, tag=9, size=4):
 
     def __init__(self, value: bytes | bytearray | str | int | datetime.datetime | datetime.time = b'\x09\x04\x00\x00\x00\x00'):
         match value:  # TODO: replace priority case
-            case bytes() if value[1] == len(self): super().__init__(self.TAG+value[2:])
-            case bytes():                          raise ValueError(F'in create {self.__class__.__name__} got tag, size: {cdt.TAG(value[0])} {value[1]}, expected {self.TAG} {len(self)}')
-            case _:                                super().__init__(value)
+            case bytes() if value[:1] == self.TAG and value[1] == len(self): super().__init__(self.TAG+value[2:])
+            case bytes():                                                     raise ValueError(F'in create {self.__class__.__name__} got tag, size: {cdt.TAG(value[0])} {value[1]}, expected {self.TAG} {len(self)}')
+            case _:                                                           super().__init__(value)
 
     @property
     def encoding(self) -> bytes:
-- 
2.43.0


From 3e239fd778128c2f6e65481183e0b2d2567a971b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:23 +0000
Subject: [PATCH 009/113] fix: keep an array unchanged when its new value is
 refused

---
 src/DLMS_SPODES/types/common_data_types.py | 27 ++++++++++++++--------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index a333626..d43bebd 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1146,16 +1146,23 @@ class Array(__Array, ComplexDataType):
         return [el.decode() for el in self.values]
 
     def set(self, value: bytes | bytearray | list | None):
-        self.clear()
-        if hasattr(self, 'cb_preset'):
-            self.cb_preset(value)
-        new_array = Array(value, type_=self.TYPE)
-        if self.TYPE is None and len(new_array) != 0:
-            self.set_type(new_array[0].__class__)
-        else:
-            """TYPE already initiated"""
-        for el in new_array:
-            self.append(self.TYPE(el))
+        old_type, old_values = self.TYPE, self.values.copy()
+        try:
+            self.clear()
+            if hasattr(self, 'cb_preset'):
+                self.cb_preset(value)
+            new_array = Array(value, type_=self.TYPE)
+            if self.TYPE is None and len(new_array) != 0:
+                self.set_type(new_array[0].__class__)
+            else:
+                """TYPE already initiated"""
+            for el in new_array:
+                self.append(self.TYPE(el))
+        except Exception:
+            if self.TYPE is not old_type:
+                self.__dict__['TYPE'] = old_type
+            self.values[:] = old_values
+            raise
         if hasattr(self, 'cb_post_set'):
             self.cb_post_set()
 
-- 
2.43.0


From 92940911c32f6e76504516f6c56c3dd2d24bb41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:23 +0000
Subject: [PATCH 010/113] fix: store the contents of a bit string built from a
 bytearray

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index d43bebd..8e337c4 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1483,7 +1483,7 @@ class BitString(SimpleDataType):
                 self.contents = new_instance.contents
                 self.__length = len(new_instance)
             case bytes():                               self.contents = self.from_bytes(value)
-            case bytearray():                           self.from_bytearray(value)
+            case bytearray():                           self.contents = self.from_bytearray(value)
             case str():                                 self.contents = self.from_str(value)
             case int():                                 self.contents = self.from_int(value)
             case list():                                self.contents = self.from_list(value)
-- 
2.43.0


From 0d88431e7b9e8bb3e5d0456db0773812731a9079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:23 +0000
Subject: [PATCH 011/113] fix: refuse text that names no boolean

---
 src/DLMS_SPODES/types/common_data_types.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 8e337c4..c725d70 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1452,6 +1452,8 @@ class Boolean(SimpleDataType):
         elif value == '1' or 'True'.startswith(value.title()) or 'Правда'.startswith(value.title()) or \
                 'Yes'.startswith(value.title()) or 'Да'.startswith(value.title()):
             return b'\x01'
+        else:
+            raise ValueError(F"can't create {self.TAG} from {value}")
 
     def from_bool(self, value: bool) -> bytes:
         return b'\x01' if value else b'\x00'
-- 
2.43.0


From a3f993ee0bc79b7b32d27a7c1468022d38f03c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:23 +0000
Subject: [PATCH 012/113] fix: let clear() reset booleans, floats, dates and
 BCD values

---
 src/DLMS_SPODES/types/common_data_types.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index c725d70..7bd3fad 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -656,7 +656,7 @@ class Float(ABC):
         return str(self.decode())
 
     def clear(self):
-        self.contents = bytes(len(self))
+        self.__dict__['contents'] = bytes(len(self))
 
 
 class LIST(ABC):
@@ -737,7 +737,7 @@ class __DateTime(ABC):
         """"""
 
     def clear(self):
-        self.contents = self.DEFAULT
+        self.__dict__['contents'] = self.DEFAULT
 
 
 class __Date(ABC):
@@ -1466,7 +1466,7 @@ class Boolean(SimpleDataType):
         return False if self.contents == b'\x00' else True
 
     def clear(self):
-        self.contents = b'\x00'
+        self.__dict__['contents'] = b'\x00'
 
     def __int__(self):
         return 0 if self.contents == b'\x00' else 1
@@ -1711,7 +1711,7 @@ class Bcd(SimpleDataType):
 
     def __init__(self, value: bytes | bytearray | str | int | Self = None):
         match value:  # TODO: replace priority case
-            case None: bytes(self.contents_length)
+            case None:                                                       self.contents = bytes(self.contents_length)
             case bytes():                                                    self.contents = self.from_bytes(value)
             case bytearray():                                                self.contents = bytes(value)
             case str():                                                      self.contents = self.from_str(value)
@@ -1733,7 +1733,7 @@ class Bcd(SimpleDataType):
         return self.TAG + self.contents
 
     def clear(self):
-        self.contents = b'\x00'
+        self.__dict__['contents'] = b'\x00'
 
     @property
     def contents_length(self) -> int: return 1
-- 
2.43.0


From b3814708c9d9f5dba32f815ef3d9978fa38b4841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:23 +0000
Subject: [PATCH 013/113] fix: pop the last array element when no index is
 given

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 7bd3fad..d862d95 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -292,7 +292,7 @@ class __Array(ABC):
             self.values.insert(index, element)
 
     def pop(self, index: int | None = None) -> CommonDataType:
-        return self.values.pop(index)
+        return self.values.pop() if index is None else self.values.pop(index)
 
     def __len__(self):
         return len(self.values)
-- 
2.43.0


From 736f60ca35c4896c00e170c43dfd4f2df00b3a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:23 +0000
Subject: [PATCH 014/113] fix: write the clock status into its own octet

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index d862d95..5936f31 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -2075,7 +2075,7 @@ class DateTime(__DateTime, __Date, __Time, SimpleDataType):
 
     def set_clock_status(self, value: str | int):
         """ now only set value """
-        self.contents = self.contents[:12] + int(value).to_bytes(1, 'big')
+        self.set(bytearray(self.contents[:11] + int(value).to_bytes(1, 'big')))
 
     def __str__(self):
         match unpack('>h', self.contents[9:11])[0]:
-- 
2.43.0


From 8540554aa28485e6778a60bab7a09736f8a74751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:23 +0000
Subject: [PATCH 015/113] fix: refuse weekdays outside 1..7

---
 src/DLMS_SPODES/types/common_data_types.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 5936f31..7d70e67 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -810,6 +810,8 @@ class __Date(ABC):
             contents = bytearray(self.contents)
             contents[4] = value
             self.set(contents)
+        else:
+            raise ValueError(F'Weekday out of range, got {value}, expected 1..7, 255')
 
     @abstractmethod
     def decode(self) -> datetime.datetime:
-- 
2.43.0


From f2fe050ddf12c8a2ab9dd332e6d6c9395941cfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:23 +0000
Subject: [PATCH 016/113] fix: check the weekday only of fully specified dates

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 7d70e67..ebff934 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -827,7 +827,7 @@ class __Date(ABC):
             value[4:5].replace(b'\xff', b'\x01')
         if datetime.date(year_highbyte * 256 + year_lowbyte, month, day_of_month).weekday() != \
                 day_of_week - 1 and value[4:] != b'\xff' and value[0:2] != b'\xff\xff' and \
-                value[2:3] not in b'\xfd\xfe\xff' and value[2:3] not in b'\xfd\xfe\xff':
+                value[2:3] not in b'\xfd\xfe\xff' and value[3:4] not in b'\xfd\xfe\xff':
             raise ValueError('Error init Data: week day wrong')
 
     @property
-- 
2.43.0


From 7703dc6dc0d5782dab2c5d24ee5c2a39f9ee8bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:23 +0000
Subject: [PATCH 017/113] fix: refuse hundredths above 99

---
 src/DLMS_SPODES/types/common_data_types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index ebff934..e0f9163 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -987,7 +987,8 @@ class __Time(ABC):
             case _ as wrong_value:                    raise ValueError(F"got hundredths={wrong_value} from {self.TAG} contents, must be: 0..99, ff")
 
     def check_time(self):
-        datetime.time(*tuple(self.contents[0+self.__contents_offset: 4+self.__contents_offset].replace(b'\xff', b'\x00')))
+        hour, minute, second, hundredths = self.contents[0+self.__contents_offset: 4+self.__contents_offset].replace(b'\xff', b'\x00')
+        datetime.time(hour, minute, second, hundredths * 10_000)
 
     @property
     def strftime(self) -> str:
-- 
2.43.0


From fbc1764a1b17a4faefd56d64cefa58cbefdb0dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:23 +0000
Subject: [PATCH 018/113] fix: give the key information of push protection its
 choice of options

---
 src/DLMS_SPODES/cosem_interface_classes/push_setup/ver2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/push_setup/ver2.py b/src/DLMS_SPODES/cosem_interface_classes/push_setup/ver2.py
index 6ddf4b2..fccf49c 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/push_setup/ver2.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/push_setup/ver2.py
@@ -66,7 +66,7 @@ class ConfirmationParameters(cdt.Structure):
 class KeyInfoElement(choices.StructureMixin, cdt.Structure):
     """Override several methods of cdt.Structure. It limited Structure."""
     key_info_type: enums.KeyInfoType
-    key_info_options: choices.KeyInfoOptions
+    key_info_options: choices.key_info_options
 
 
 class ProtectionOptions(cdt.Structure):
-- 
2.43.0


From 0791aff7d282643e278a2906a40f5baef3da42ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:23 +0000
Subject: [PATCH 019/113] fix: refuse integer contents of another size

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index e0f9163..c9b5fda 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -416,7 +416,7 @@ class Digital(ABC):
                     case self.TAG:                                                     raise ValueError(F'Length of contents for {self.TAG} must be at least '
                                                                                                         F'{self.LENGTH}, but got {len(length_and_contents)}')
                     case _ as wrong_tag:                                               raise ValueError(F'Expected {self.TAG} type, got {TAG(wrong_tag)}')
-            case bytearray():                                                          self.contents = bytes(value)  # Attention!!! changed method content getting from bytearray
+            case bytearray() if len(value) == self.LENGTH:                             self.contents = bytes(value)  # Attention!!! changed method content getting from bytearray
             case str('-') if self.SIGNED:                                              self.contents = bytes(self.LENGTH)
             case int() | float():                                                      self.contents = self.from_int(value)
             case str():                                                                self.contents = self.from_str(value)
-- 
2.43.0


From 772745fc84bc427e4cb2b0f21b4fa94043558bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:04 +0000
Subject: [PATCH 020/113] fix: import the method module of association_ln from
 its package

---
 src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py b/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
index e65cd29..3beab1c 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
@@ -4,8 +4,7 @@ from ..__class_init__ import *
 from ...types import choices, cosemObjectInstanceId
 from ...types.implementations import arrays, enums, bitstrings, long_unsigneds, structs
 from ... import pdu_enums as pdu
-from . import mechanism_id, authentication_mechanism_name
-import method
+from . import mechanism_id, authentication_mechanism_name, method
 
 
 class AccessMode(cdt.Enum, elements=(0, 1, 2, 3)):
-- 
2.43.0


From 6c01494729aeb4c8d2c385734f78d97e03164746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:57 +0000
Subject: [PATCH 021/113] fix: check the space of a byte buffer at the
 requested position

---
 src/DLMS_SPODES/types/byte_buffer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/types/byte_buffer.py b/src/DLMS_SPODES/types/byte_buffer.py
index 6751b06..6539b84 100644
--- a/src/DLMS_SPODES/types/byte_buffer.py
+++ b/src/DLMS_SPODES/types/byte_buffer.py
@@ -30,9 +30,9 @@ class ByteBuffer:
 
     def _check_space(self, space: int, pos: int = None):
         """check whether this buffer has enough `space` left for r/w op"""
-        if not pos:
+        if pos is None:
             pos = self.__pos
-        if self.remaining(pos) < space:
+        if pos < 0 or self.remaining(pos) < space:
             raise BufferError(F"{self} not enough more {space=}")
 
     def read(self, length: int = 1) -> memoryview:
@@ -45,7 +45,7 @@ class ByteBuffer:
                  pos: int,
                  length: int = 1) -> memoryview:
         """return view to position"""
-        self._check_space(length)
+        self._check_space(length, pos)
         ret = self.buf[pos: pos + length]
         return ret
 
-- 
2.43.0


From 1c24632d024aaeaf2448c6d3a1cd29f59a085e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:57 +0000
Subject: [PATCH 022/113] fix: let the cursor of a byte buffer be set to its
 end

---
 src/DLMS_SPODES/types/byte_buffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/byte_buffer.py b/src/DLMS_SPODES/types/byte_buffer.py
index 6539b84..d0ae726 100644
--- a/src/DLMS_SPODES/types/byte_buffer.py
+++ b/src/DLMS_SPODES/types/byte_buffer.py
@@ -114,7 +114,7 @@ class ByteBuffer:
 
     def set_pos(self, index):
         """set new position, with check"""
-        if 0 <= index < len(self):
+        if 0 <= index <= len(self):
             self.__pos = index
         else:
             raise IndexError(F"{self} can't set {index=}")
-- 
2.43.0


From 6ea8d89eb8eef170bb7a07dc924d3670ac4d65d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:57 +0000
Subject: [PATCH 023/113] fix: take the count of length octets from the low
 seven bits

---
 src/DLMS_SPODES/types/cosem_pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/cosem_pdu.py b/src/DLMS_SPODES/types/cosem_pdu.py
index 474a5c6..99fc2f9 100644
--- a/src/DLMS_SPODES/types/cosem_pdu.py
+++ b/src/DLMS_SPODES/types/cosem_pdu.py
@@ -34,7 +34,7 @@ class Buffer(ByteBuffer):
         """ return common element length from buffer, with increasing by decoding according to 8.1.3 Length octets ITU-T Rec. X.690 (07/2002) """
         define_length = self.get_uint8()
         if define_length & 0b10000000:
-            return self.get_uint(define_length >> 1)
+            return self.get_uint(define_length & 0b01111111)
         else:
             return define_length
 
-- 
2.43.0


From 766783662dcaadd38068e56c0c8f8b8894696d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:57 +0000
Subject: [PATCH 024/113] fix: write long length prefixes at the cursor and
 advance it

---
 src/DLMS_SPODES/types/cosem_pdu.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/DLMS_SPODES/types/cosem_pdu.py b/src/DLMS_SPODES/types/cosem_pdu.py
index 99fc2f9..daf5eeb 100644
--- a/src/DLMS_SPODES/types/cosem_pdu.py
+++ b/src/DLMS_SPODES/types/cosem_pdu.py
@@ -47,17 +47,11 @@ class Buffer(ByteBuffer):
         if length < 0x80:
             return self.put_int(length)
         elif length < 0x1_00:
-            _length1.pack_into(self.buf, 0,
-                               0x81, length)
-            return 2
+            return self.write(_length1.pack(0x81, length))
         elif length < 0x1_00_00:
-            _length2.pack_into(self.buf, 0,
-                               0x82, length)
-            return 3
+            return self.write(_length2.pack(0x82, length))
         elif length < 0x1_00_00_00_00:
-            _length4.pack_into(self.buf, 0,
-                               0x84, length)
-            return 5
+            return self.write(_length4.pack(0x84, length))
         else:
             amount = int(log(length, 256)) + 1
             ret: int = self.put_int(0x80 + amount)
-- 
2.43.0


From 8480c85b8f9602c8fdffad75c6ca272418ad56df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:57 +0000
Subject: [PATCH 025/113] fix: compare buffer-backed integers by their value

---
 src/DLMS_SPODES/types/cosem_pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/cosem_pdu.py b/src/DLMS_SPODES/types/cosem_pdu.py
index daf5eeb..237b31c 100644
--- a/src/DLMS_SPODES/types/cosem_pdu.py
+++ b/src/DLMS_SPODES/types/cosem_pdu.py
@@ -273,7 +273,7 @@ class INTEGER(Simple, ABC):
 
     def __gt__(self, other: Self):
         match other:
-            case INTEGER(): return self.contents > other.value
+            case INTEGER(): return int(self) > int(other)
             case _:          raise TypeError(F'Compare type is {other.__class__}, expected Digital')
 
     def __hash__(self):
-- 
2.43.0


From fa43041048de1647406747a061fff9ff0fa79f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:57 +0000
Subject: [PATCH 026/113] fix: return the element of a choice or sequence-of
 instead of raising it

---
 src/DLMS_SPODES/types/cosem_pdu.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/types/cosem_pdu.py b/src/DLMS_SPODES/types/cosem_pdu.py
index 237b31c..a036ad8 100644
--- a/src/DLMS_SPODES/types/cosem_pdu.py
+++ b/src/DLMS_SPODES/types/cosem_pdu.py
@@ -632,7 +632,7 @@ class Choice(UT):
         return len(self.value) + 1
 
     def __getitem__(self, item):
-        raise self.value[item]
+        return self.value[item]
 
 
 class _SequenceOf(UT):
@@ -670,7 +670,7 @@ class _SequenceOf(UT):
         return decide_len(len(self.values)) + sum(map(len, self.values))
 
     def __getitem__(self, item):
-        raise self.values[item]
+        return self.values[item]
 
 
 def SEQUENCE_OF(value: Type[UT]) -> Type[_SequenceOf]:
-- 
2.43.0


From 5abf38e64888e9ee5f54c7e154145f2969b82a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:57 +0000
Subject: [PATCH 027/113] fix: refuse contents of another size in fixed-size
 protocol elements

---
 src/DLMS_SPODES/types/cosem_pdu.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/DLMS_SPODES/types/cosem_pdu.py b/src/DLMS_SPODES/types/cosem_pdu.py
index a036ad8..4296d34 100644
--- a/src/DLMS_SPODES/types/cosem_pdu.py
+++ b/src/DLMS_SPODES/types/cosem_pdu.py
@@ -138,6 +138,7 @@ class Simple(UT, ABC):
 
     def __init__(self, value: memoryview):
         self.contents = value
+        self.validate()
 
     def validate(self):
         if not (len(self) == -1 or len(self) == len(self.contents)):
@@ -176,6 +177,9 @@ class Simple(UT, ABC):
 
 
 class VarSizeMixin(Simple, ABC):
+    def validate(self):
+        """any size is possible"""
+
     def __len__(self) -> int:
         return decide_len(len(self.contents)) + len(self.contents)
 
-- 
2.43.0


From 3033994efb185f55d0e176c3fdeb2e5b26eb0d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:24 +0000
Subject: [PATCH 028/113] fix: write data values with the tag they were read
 with

---
 src/DLMS_SPODES/types/cosem_pdu.py | 41 +++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/src/DLMS_SPODES/types/cosem_pdu.py b/src/DLMS_SPODES/types/cosem_pdu.py
index 4296d34..0868e52 100644
--- a/src/DLMS_SPODES/types/cosem_pdu.py
+++ b/src/DLMS_SPODES/types/cosem_pdu.py
@@ -684,6 +684,39 @@ def SEQUENCE_OF(value: Type[UT]) -> Type[_SequenceOf]:
     return SequenceOf
 
 
+class Bcd(Integer8):
+    """Integer8 with own tag in Data"""
+
+
+class Enumerated(INTEGER, Simple):
+    """ INTEGER(0...255), with own tag in Data"""
+    @classmethod
+    def __len__(cls) -> int:
+        return 1
+
+    @classmethod
+    def SIGNED(cls) -> bool:
+        return False
+
+
+class Float32(OctetString4):
+    """OctetString4 with own tag in Data"""
+
+
+class DontCare(Simple):
+    """NULL with own tag in Data"""
+    @classmethod
+    def __len__(cls) -> int:
+        return 0
+
+    @classmethod
+    def from_str(cls, value: str):
+        return cls.default()
+
+    def __str__(self):
+        return self.__class__.__name__
+
+
 class Data(Choice):
     ELEMENTS = """define after, because has link to Self"""
 
@@ -699,7 +732,7 @@ Data.ELEMENTS = (
         ChoiceElement("octet-string",          9, OctetString),
         # ChoiceElement(name="visible-string",        10, VisibleString),
         # ChoiceElement(name="utf8-string",           12, UTF8String),
-        ChoiceElement("bcd",                   13, Integer8),
+        ChoiceElement("bcd",                   13, Bcd),
         ChoiceElement("integer",               15, Integer8),
         ChoiceElement("long",                  16, Integer16),
         ChoiceElement("unsigned",              17, Unsigned8),
@@ -707,11 +740,11 @@ Data.ELEMENTS = (
         # ChoiceElement("compact-array",         19, ...),
         ChoiceElement("long64",                20, Integer64),
         ChoiceElement("long64-unsigned",       21, Unsigned64),
-        ChoiceElement("enum",                  22, Unsigned8),
-        ChoiceElement("float32",               23, OctetString4),
+        ChoiceElement("enum",                  22, Enumerated),
+        ChoiceElement("float32",               23, Float32),
         ChoiceElement("float64",               24, OctetString8),
         ChoiceElement("date-time",             25, OctetString12),
         ChoiceElement("date",                  26, OctetString5),
         ChoiceElement("time",                  27, OctetString4),
-        ChoiceElement("dont-care",             255, NULL)
+        ChoiceElement("dont-care",             255, DontCare)
     )
-- 
2.43.0


From 787ec34ee65fec1857849e78b378b171df3ee7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:37 +0000
Subject: [PATCH 029/113] fix: define CosemAttributeDescriptorWithSelection so
 that the package can be imported

association_ln.ver0, profile_generic.ver1 and collection use
ut.CosemAttributeDescriptorWithSelection, which was only a comment, so importing
the package always ended in an AttributeError.
---
 src/DLMS_SPODES/types/useful_types.py | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index a5e1149..e421252 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -776,21 +776,6 @@ class SelectiveAccessDescriptor(Sequence, ABC):
             self.access_parameters.set(value)
 
 
-# class CosemAttributeDescriptorWithSelection(Sequence):
-#     cosem_attribute_descriptor: CosemAttributeDescriptor
-#     access_selection: SelectiveAccessDescriptor
-#     ELEMENTS: tuple[CosemAttributeDescriptor, SequenceElement]
-#
-#     def __init__(self, value: bytes | tuple | list = None):
-#         super(CosemAttributeDescriptorWithSelection, self).__init__(value)
-#         self.cosem_attribute_descriptor.access_selection_parameters.set_contents_from(1)
-#
-#     @property
-#     @abstractmethod
-#     def ELEMENTS(self) -> tuple[SequenceElement, SequenceElement]:
-#         """ return elements. Need initiate in subclass """
-
-
 ####
 @dataclass
 class ServiceClass:
@@ -931,6 +916,13 @@ class CosemAttributeDescriptor(Sequence):
     attribute_id: CosemObjectAttributeId
 
 
+@dataclass
+class CosemAttributeDescriptorWithSelection(Sequence):
+    """COSEMpdu_GB83 Cosem-Attribute-Descriptor-With-Selection"""
+    cosem_attribute_descriptor: CosemAttributeDescriptor
+    access_selection: SelectiveAccessDescriptor
+
+
 @dataclass
 class CosemMethodDescriptor(Sequence):
     class_id: CosemClassId
-- 
2.43.0


From 4b49befeff5b6fe6c199eca3c2407173af2c1b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:49 +0000
Subject: [PATCH 030/113] fix: fall back to the config.toml that lies beside
 config_parser

the fallback path was the package directory and './/config.toml' glued together,
a file that never exists, so importing from any other directory failed.
---
 src/DLMS_SPODES/config_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/config_parser.py b/src/DLMS_SPODES/config_parser.py
index 6ef84dd..95cfca4 100644
--- a/src/DLMS_SPODES/config_parser.py
+++ b/src/DLMS_SPODES/config_parser.py
@@ -38,7 +38,7 @@ def get_values2(*args: str) -> tuple[str, int]:
 
 
 if not os.path.isfile(path := ".//config.toml"):
-    path = F"{os.path.dirname(__file__)}{path}"
+    path = os.path.join(os.path.dirname(__file__), "config.toml")
 elif not os.path.isfile(path):
     logger.warning("NOT FIND CONFIGURATION: <config.toml>")
 with open(path, "rb") as f:
-- 
2.43.0


From 075e1d46993cf3a3e6c1e7c580aaa64104d91014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:08 +0000
Subject: [PATCH 031/113] fix: abstract_objects and types.arrays can be
 imported

pack_into returns None and was given five of six values; a logical name is built
from a bytearray of its six octets. arrays imported from the standard library's
types module.
---
 src/DLMS_SPODES/obis/abstract_objects.py | 10 +++-------
 src/DLMS_SPODES/types/arrays.py          |  2 +-
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/DLMS_SPODES/obis/abstract_objects.py b/src/DLMS_SPODES/obis/abstract_objects.py
index c54e904..e7e5af9 100644
--- a/src/DLMS_SPODES/obis/abstract_objects.py
+++ b/src/DLMS_SPODES/obis/abstract_objects.py
@@ -1,17 +1,13 @@
 """DLMS UA 1000-1 Ed. 14. 7.4 Abstract objects (Value group A = 0)"""
-from struct import pack_into
 from ..types import cst
 
 
-_buf = bytearray(6)
-
-
 def BILLING_PERIOD_COUNTER(b: int = 0, f: int = 255):
-    return cst.LogicalName(bytes((0, b, 0, 1, 0, f)))
+    return cst.LogicalName(bytearray((0, b, 0, 1, 0, f)))
 
 
 def SPODES3_DISPLAY_MODE():
-    return cst.LogicalName(pack_into(">6B", _buf, 0, 0, 96, 4, 1, 255))
+    return cst.LogicalName(bytearray((0, 0, 96, 4, 1, 255)))
 
 
-LDN = cst.LogicalName(pack_into(">6B", _buf, 0, 0, 42, 0, 0, 255))
+LDN = cst.LogicalName(bytearray((0, 0, 42, 0, 0, 255)))
diff --git a/src/DLMS_SPODES/types/arrays.py b/src/DLMS_SPODES/types/arrays.py
index a143bae..03a94e5 100644
--- a/src/DLMS_SPODES/types/arrays.py
+++ b/src/DLMS_SPODES/types/arrays.py
@@ -1,5 +1,5 @@
 """ COMMON Arrays """
-from types import common_data_types as cdt
+from ..types import common_data_types as cdt
 
 
 class Integer(cdt.Array):
-- 
2.43.0


From 011d8c2a4b10d320e6f65271dd63f5a4f67ed2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:15 +0000
Subject: [PATCH 032/113] fix: Conformance reports a foreign tag

neither the bit string nor the common data types have a NAME, so decoding other
data ended in an AttributeError.
---
 src/DLMS_SPODES/types/implementations/bitstrings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/implementations/bitstrings.py b/src/DLMS_SPODES/types/implementations/bitstrings.py
index e7ff596..a98c99f 100644
--- a/src/DLMS_SPODES/types/implementations/bitstrings.py
+++ b/src/DLMS_SPODES/types/implementations/bitstrings.py
@@ -49,7 +49,7 @@ class Conformance(cdt.BitString):
         match value[:1]:
             case self.TAG if len(self) <= len(pdu) * 8: return pdu[:3]
             case self.TAG:                              raise ValueError(F'Got pdu length:{len(pdu)}, expected at least {len(self) >> 3}')
-            case _ as error:                            raise TypeError(F'Expected {self.NAME} type, got {cdt.get_common_data_type_from(error).NAME}')
+            case _ as error:                            raise TypeError(F'Expected {self.TAG}, got {cdt.TAG(error)}')
 
     def from_str(self, value: str) -> bytes:
         value = value + '0' * ((8 - len(self)) % 8)
-- 
2.43.0


From dc5f1d71817a4387a7d34849ae5bd0b120823e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:58 +0000
Subject: [PATCH 033/113] fix: order and compare versions by their parts

versions without a patch raised TypeError when compared with a patched one, the
additional part made versions unequal but not ordered, and equality by hash took
different versions for equal.
---
 src/DLMS_SPODES/version.py | 40 ++++++++------------------------------
 1 file changed, 8 insertions(+), 32 deletions(-)

diff --git a/src/DLMS_SPODES/version.py b/src/DLMS_SPODES/version.py
index eba8e65..09d611a 100644
--- a/src/DLMS_SPODES/version.py
+++ b/src/DLMS_SPODES/version.py
@@ -50,42 +50,18 @@ class AppVersion:
     def additional(self) -> str:
         return self.__additional
 
+    def __key(self) -> tuple:
+        """ parts by significance, a version without patch precedes the same version with a patch """
+        return self.__major, self.__minor, self.__patch is not None, self.__patch or 0, self.__additional
+
     def __eq__(self, other: AppVersion):
-        return hash(self) == hash(other) and self.__additional == other.additional
+        return isinstance(other, AppVersion) and self.__key() == other.__key()
 
     def __gt__(self, other: AppVersion):
-        if self.__major > other.major:
-            return True
-        elif self.__major < other.major:
-            return False
-        elif self.__minor > other.minor:
-            return True
-        elif self.__minor < other.minor:
-            return False
-        if self.__patch is None:
-            return False
-        elif self.__patch > other.patch:
-            return True
-        else:
-            return False
+        return self.__key() > other.__key()
 
     def __ge__(self, other: AppVersion):
-        if self.__major > other.major:
-            return True
-        elif self.__major < other.major:
-            return False
-        elif self.__minor > other.minor:
-            return True
-        elif self.__minor < other.minor:
-            return False
-        if self.__patch is None:
-            return True
-        elif self.__patch > other.patch:
-            return True
-        elif self.__patch < other.patch:
-            return False
-        else:
-            return True
+        return self.__key() >= other.__key()
 
     def __str__(self):
         return F'{self.__major}.{self.__minor}{F".{self.__patch}" if self.__patch is not None else ""}'
@@ -106,4 +82,4 @@ class AppVersion:
 
     def select_nearest(self, variants: list[AppVersion]) -> AppVersion | None:
         """ select left nearest from list in minor branch else return None """
-        return max(filter(lambda var: var.major == self.__major and var.minor == self.__minor and var.patch <= self.__patch, variants), default=None)
+        return max(filter(lambda var: var.major == self.__major and var.minor == self.__minor and var.__key()[:4] <= self.__key()[:4], variants), default=None)
-- 
2.43.0


From 009743275c0e215c5bfc0f69cd972f15b3f705a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:54 +0000
Subject: [PATCH 034/113] fix: octet strings of the service types keep the
 octets they are built from

---
 src/DLMS_SPODES/types/useful_types.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index e421252..dc1e673 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -147,11 +147,7 @@ class OctetString(UT):
     value: bytes
 
     def __init__(self, value: bytes):
-        length, pdu = get_length_and_pdu(value)
-        if length <= len(pdu):
-            self.value = pdu[:length]
-        else:
-            raise ValueError(F"for {self.__class__.__name__} got {length=}, but content length only: {len(pdu)}")
+        self.value = value
 
     @classmethod
     def from_contents(cls, value: bytes) -> Self:
-- 
2.43.0


From 6e7386b1e18ab8a2dbe855767f90f1615e3dd260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:54 +0000
Subject: [PATCH 035/113] fix: decode the fields of a service sequence from
 their contents

---
 src/DLMS_SPODES/types/useful_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index dc1e673..c3e4a20 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -73,7 +73,7 @@ class UT(ABC):
 
 
 def get_instance_and_context(meta: Type[UT], value: bytes) -> tuple[UT, bytes]:
-    instance = meta(value)
+    instance = meta.from_contents(value)
     return instance, value[len(instance.contents):]
 
 
-- 
2.43.0


From d021cce220e909401b01e937b2b52d8413dcd286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:54 +0000
Subject: [PATCH 036/113] fix: service integers read all of their octets

---
 src/DLMS_SPODES/types/useful_types.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index c3e4a20..93a93fb 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -629,7 +629,9 @@ class INTEGER(ABC):
 
     @classmethod
     def from_contents(cls, value: bytes):
-        return cls(int.from_bytes(value[0:1], "big", signed=cls.SIGNED))
+        if len(value) < cls.LENGTH:
+            raise ValueError(F"for {cls.__name__} got content length={len(value)}, expected at least {cls.LENGTH}")
+        return cls(int.from_bytes(value[:cls.LENGTH], "big", signed=cls.SIGNED))
 
     @property
     def contents(self) -> bytes:
-- 
2.43.0


From 920ce28a1588b071c9011381275bbe396d57e947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:54 +0000
Subject: [PATCH 037/113] fix: OctetString6 holds six octets

---
 src/DLMS_SPODES/types/useful_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index 93a93fb..6ce3cd2 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -205,7 +205,7 @@ class OctetString5(ConstSizeMixin, OctetString):
 class OctetString6(ConstSizeMixin, OctetString):
     @classmethod
     def SIZE(cls) -> int:
-        return 5
+        return 6
 
 
 class OctetString8(ConstSizeMixin, OctetString):
-- 
2.43.0


From a76b2b05b06c2dd4eeedf975ee71025b9b8290a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:54 +0000
Subject: [PATCH 038/113] fix: BOOLEAN.from_str accepts the texts it names

---
 src/DLMS_SPODES/types/useful_types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index 6ce3cd2..a2053fa 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -483,9 +483,9 @@ class BOOLEAN(UT):
     @classmethod
     def from_str(cls, value: str):
         match value:
-            case "0", "False":
+            case "0" | "False":
                 return FALSE
-            case "1", "True":
+            case "1" | "True":
                 return TRUE
             case _:
                 raise ValueError(F"for {cls.__name__}.from_str got unknown {value=}")
-- 
2.43.0


From 53935978e40e406fd4517af348576ac74f8a98b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:54 +0000
Subject: [PATCH 039/113] fix: service sequences encode fields that are
 sequences

---
 src/DLMS_SPODES/types/useful_types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index a2053fa..34915e1 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -87,8 +87,8 @@ class Sequence(UT, ABC):
     @property
     def contents(self):
         data = bytearray()
-        for it in astuple(self, tuple_factory=iter):
-            data.extend(it.contents)
+        for f in fields(self):
+            data.extend(getattr(self, f.name).contents)
         return bytes(data)
 
     @classmethod
-- 
2.43.0


From 5053d41a86f250ef13cfbf86731dd51bed77e6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:29 +0000
Subject: [PATCH 040/113] fix: build the method descriptor from its fields

---
 .../cosem_interface_classes/cosem_interface_class.py       | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
index 9db8c49..cc696c8 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
@@ -363,9 +363,10 @@ class COSEMInterfaceClasses(ABC):
         """ TODO """
         match value:
             case int() as index:
-                return ut.CosemMethodDescriptor((CosemClassId(self.CLASS_ID.contents),
-                                                 cosemObjectInstanceId.CosemObjectInstanceId(self.logical_name.contents),
-                                                 ut.CosemObjectMethodId(index)))
+                return ut.CosemMethodDescriptor(
+                    self.CLASS_ID,
+                    cosemObjectInstanceId.CosemObjectInstanceId(self.logical_name.contents),
+                    ut.CosemObjectMethodId(index))
 
     def __hash__(self):
         return hash(self.logical_name)
-- 
2.43.0


From 767a9a57e4bc22ef99ced13aaafad6c5f09452f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:11 +0000
Subject: [PATCH 041/113] fix: decode every field of a service sequence

---
 src/DLMS_SPODES/types/useful_types.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index 34915e1..31f6558 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -97,8 +97,6 @@ class Sequence(UT, ABC):
         for f in fields(cls):
             new, value = get_instance_and_context(f.type, value)
             values.append(new)
-            if not len(value):
-                break
         return cls(*values)
 
     def __str__(self):
-- 
2.43.0


From 3ed682961662a0395dd6480555d52cf3be1f746b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:11 +0000
Subject: [PATCH 042/113] fix: take the Data choice for the access parameters
 of selective access

---
 src/DLMS_SPODES/types/useful_types.py | 28 +++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index 31f6558..fa4b1e3 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -897,13 +897,6 @@ class CosemObjectMethodId(Integer8):
     """Cosem-Object-Method-Id"""
 
 
-@dataclass
-class SelectiveAccessDescriptor(Sequence):
-    """COSEMpdu_GB83 Selective-Access-Descriptor"""
-    access_selector: Unsigned8
-    access_parameters: Data
-
-
 @dataclass
 class CosemAttributeDescriptor(Sequence):
     """COSEMpdu_GB83 Cosem-Attribute-Descriptor"""
@@ -912,13 +905,6 @@ class CosemAttributeDescriptor(Sequence):
     attribute_id: CosemObjectAttributeId
 
 
-@dataclass
-class CosemAttributeDescriptorWithSelection(Sequence):
-    """COSEMpdu_GB83 Cosem-Attribute-Descriptor-With-Selection"""
-    cosem_attribute_descriptor: CosemAttributeDescriptor
-    access_selection: SelectiveAccessDescriptor
-
-
 @dataclass
 class CosemMethodDescriptor(Sequence):
     class_id: CosemClassId
@@ -954,3 +940,17 @@ class Data(Choice):
         # ChoiceElement(name="time",                  tag=27,  type=OCTET_STRING(4)),
         ChoiceElement(name="dont-care",             tag=255, type=Null)
     )
+
+
+@dataclass
+class SelectiveAccessDescriptor(Sequence):
+    """COSEMpdu_GB83 Selective-Access-Descriptor"""
+    access_selector: Unsigned8
+    access_parameters: Data
+
+
+@dataclass
+class CosemAttributeDescriptorWithSelection(Sequence):
+    """COSEMpdu_GB83 Cosem-Attribute-Descriptor-With-Selection"""
+    cosem_attribute_descriptor: CosemAttributeDescriptor
+    access_selection: SelectiveAccessDescriptor
-- 
2.43.0


From 7c05f136a0f61cf73e37fc5269ddd33000818d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:11 +0000
Subject: [PATCH 043/113] fix: encode data alternatives of the service types
 with the tag they were read with

---
 src/DLMS_SPODES/types/useful_types.py | 37 ++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index fa4b1e3..c7a9251 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -912,6 +912,37 @@ class CosemMethodDescriptor(Sequence):
     method_id: CosemObjectMethodId
 
 
+class Bcd(Integer8):
+    """Integer8 with own tag in Data"""
+
+
+class Enumerated(INTEGER, UT):
+    """INTEGER(0...255) with own tag in Data"""
+    LENGTH = 1
+    SIGNED = False
+
+
+class DontCare(UT):
+    """NULL with own tag in Data"""
+    def __init__(self):
+        """without value"""
+
+    @classmethod
+    def from_contents(cls, value: bytes) -> Self:
+        return cls()
+
+    @property
+    def contents(self):
+        return b''
+
+    @classmethod
+    def from_str(cls, value: str):
+        return cls()
+
+    def __str__(self):
+        return self.__class__.__name__
+
+
 class Data(Choice):
     ELEMENTS = (
         ChoiceElement(name="null-data",             tag=0,  type=Null),
@@ -924,7 +955,7 @@ class Data(Choice):
         ChoiceElement(name="octet-string", tag=9, type=OctetString),
         ChoiceElement(name="visible-string",        tag=10, type=VisibleString),
         ChoiceElement(name="utf8-string",           tag=12, type=UTF8String),
-        ChoiceElement(name="bcd",                   tag=13, type=Integer8),
+        ChoiceElement(name="bcd",                   tag=13, type=Bcd),
         ChoiceElement(name="integer",               tag=15, type=Integer8),
         ChoiceElement(name="long",                  tag=16, type=Integer16),
         ChoiceElement(name="unsigned",              tag=17, type=Unsigned8),
@@ -932,13 +963,13 @@ class Data(Choice):
         # ChoiceElement(name="compact-array",         tag=19, type=...),
         ChoiceElement(name="long64",                tag=20, type=Integer64),
         ChoiceElement(name="long64-unsigned",       tag=21, type=Unsigned64),
-        ChoiceElement(name="enum",                  tag=22, type=Unsigned8),
+        ChoiceElement(name="enum",                  tag=22, type=Enumerated),
         # ChoiceElement(name="float32",               tag=23, IMPLICIT   OCTET STRING (SIZE(4)),
         # ChoiceElement(name="float64",               tag=24,  IMPLICIT   OCTET STRING (SIZE(8)),
         # ChoiceElement(name="date-time",             tag=25,  IMPLICIT   OCTET STRING (SIZE(12)),
         # ChoiceElement(name="date",                  tag=26,  IMPLICIT   OCTET STRING (SIZE(5)),
         # ChoiceElement(name="time",                  tag=27,  type=OCTET_STRING(4)),
-        ChoiceElement(name="dont-care",             tag=255, type=Null)
+        ChoiceElement(name="dont-care",             tag=255, type=DontCare)
     )
 
 
-- 
2.43.0


From 9e35c9560b5b1e94a7ba8e4be2c5067f5e08ac0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:11 +0000
Subject: [PATCH 044/113] fix: refuse invoke ids that do not fit their four
 bits

---
 src/DLMS_SPODES/types/useful_types.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index c7a9251..326dd24 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -801,6 +801,10 @@ class InvokeIdAndPriority(Unsigned8):
     service_class: ServiceClass
     priority: Priority
 
+    def __post_init__(self):
+        if not 0 <= self.invoke_id <= 0b0000_1111:
+            raise ValueError(F"for {self.__class__.__name__} got {self.invoke_id=}, expected 0..15")
+
     @classmethod
     def from_contents(cls, value: bytes) -> Self:
         if cls.LENGTH > len(value):  # todo: copypast from DigitalMixin
-- 
2.43.0


From 1c53bd34b85216bf149a7767fb72b7eb44ca4522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:11 +0000
Subject: [PATCH 045/113] fix: report foreign tags of choices with nested
 elements

---
 src/DLMS_SPODES/types/useful_types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index 326dd24..d8f3e0e 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -399,13 +399,13 @@ class CHOICE(ABC):
                                 return ch[encoding[1]].TYPE(encoding)  # use for choice cst.Time | DateTime | Date as OctetString
                             else:
                                 raise ValueError(F"got type with tag: {encoding[0]} and length: {encoding[1]}, expected length {tuple(ch.keys())}")
-                        case err:                     raise ValueError(F"got {err.__name__}, expected {SequenceElement.__name__} or {dict.__name__}")
+                        case err:                     raise ValueError(F"got {err}, expected {SequenceElement.__name__} or {dict.__name__}")
                 case int() if force:                  return cdt.get_common_data_type_from(value.to_bytes(1, "big"))()
                 case int() as tag:                    return self.ELEMENTS[tag].TYPE()
                 case None:                            return tuple(self.ELEMENTS.values())[0].TYPE()
                 case error:                           raise ValueError(F'Unknown value type {error}')
         except KeyError as e:
-            raise UserfulTypesException(F"for {self.__class__.__name__} got {cdt.CommonDataType.__name__}: {cdt.TAG(e.args[0].to_bytes(1))}; expected: {', '.join(map(lambda el: el.NAME, self.ELEMENTS.values()))}")
+            raise UserfulTypesException(F"for {self.__class__.__name__} got {cdt.CommonDataType.__name__}: {cdt.TAG(e.args[0].to_bytes(1))}; expected: {', '.join(map(lambda el: el.NAME, self.__get_elements()))}")
 
     def __get_elements(self) -> list[SequenceElement]:
         """all elements with nested values"""
-- 
2.43.0


From b967d5e926fcf2b72cded22ca60f530ae1a490fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:36 +0000
Subject: [PATCH 046/113] fix: refuse weekdays outside 1..7 in dates with
 unspecified parts

---
 src/DLMS_SPODES/types/common_data_types.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index c9b5fda..5c70ebd 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -825,6 +825,8 @@ class __Date(ABC):
             value[0:2].replace(b'\xff\xff', b'\x01\x00') + \
             value[2:4].replace(b'\xff', b'\x01').replace(b'\xfe', b'\x01').replace(b'\xfd', b'\x01') + \
             value[4:5].replace(b'\xff', b'\x01')
+        if not 1 <= day_of_week <= 7:
+            raise ValueError(F'Error init Data: got weekday={day_of_week}, expected 1..7, 255')
         if datetime.date(year_highbyte * 256 + year_lowbyte, month, day_of_month).weekday() != \
                 day_of_week - 1 and value[4:] != b'\xff' and value[0:2] != b'\xff\xff' and \
                 value[2:3] not in b'\xfd\xfe\xff' and value[3:4] not in b'\xfd\xfe\xff':
-- 
2.43.0


From 293146ffd837f6bd0b5df8f24eda3b2c128840c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:36 +0000
Subject: [PATCH 047/113] fix: let the year 1 be set, as the error text says

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 5c70ebd..b99f202 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -779,7 +779,7 @@ class __Date(ABC):
 
     def set_year(self, value: int):
         """ set day """
-        if (9999 >= value > 1) or value == 0xffff:
+        if (9999 >= value >= 1) or value == 0xffff:
             contents = bytearray(self.contents)
             contents[:2] = value.to_bytes(2, 'big')
             self.set(contents)
-- 
2.43.0


From 84b0d88d5dfb67df4fa0736eb2836b2b515799ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:36 +0000
Subject: [PATCH 048/113] fix: let the special months and days of a date be set

---
 src/DLMS_SPODES/types/common_data_types.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index b99f202..a209ef2 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -788,21 +788,21 @@ class __Date(ABC):
 
     def set_month(self, value: int):
         """ set month """
-        if (12 >= value >= 1) or value == 0xff:
+        if (12 >= value >= 1) or value in (0xfd, 0xfe, 0xff):
             contents = bytearray(self.contents)
             contents[2] = value
             self.set(contents)
         else:
-            raise ValueError(F'Month out of range, got {value}, expected 1..12, 255')
+            raise ValueError(F'Month out of range, got {value}, expected 1..12, 253..255')
 
     def set_day(self, value: int):
         """ set day """
-        if (31 >= value >= 1) or value == 0xff:
+        if (31 >= value >= 1) or value in (0xfd, 0xfe, 0xff):
             contents = bytearray(self.contents)
             contents[3] = value
             self.set(contents)
         else:
-            raise ValueError(F'Day out of range, got {value}, expected 1..31, 255')
+            raise ValueError(F'Day out of range, got {value}, expected 1..31, 253..255')
 
     def set_weekday(self, value: int):
         """ set weekday """
-- 
2.43.0


From d5c05737d8506bc3804998fcb9cdfff3d2d9b58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:36 +0000
Subject: [PATCH 049/113] fix: treat the deviation of a date-time as a signed
 number

---
 src/DLMS_SPODES/types/common_data_types.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index a209ef2..cc13ad2 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -2045,7 +2045,7 @@ class DateTime(__DateTime, __Date, __Time, SimpleDataType):
             match dev:
                 case '':  return b'\x80\x00'
                 case '-': return b'\x00\x00'
-                case _ if dev.isdigit() and -720 <= int(dev) <= 720:   return pack('>H', int(dev))
+                case _ if dev.removeprefix('-').isdigit() and -720 <= int(dev) <= 720:   return pack('>h', int(dev))
                 case _:           raise ValueError
 
         match value.split(sep=' ', maxsplit=2):
@@ -2058,9 +2058,9 @@ class DateTime(__DateTime, __Date, __Time, SimpleDataType):
     def from_datetime(self, value: datetime.datetime) -> bytes:
         """ convert from build to DLMS datetime, weekday not set for uniquely datetime """
         match value.utcoffset():
-            case None: deviation = 0x8000
-            case _:    deviation = value.utcoffset().seconds // 60
-        return pack('>HBBBBBBBH',
+            case None: deviation = -0x8000
+            case _:    deviation = int(value.utcoffset().total_seconds() // 60)
+        return pack('>HBBBBBBBh',
                     value.year,
                     value.month,
                     value.day,
@@ -2094,7 +2094,7 @@ class DateTime(__DateTime, __Date, __Time, SimpleDataType):
     def decode(self) -> datetime.datetime:
         year_highbyte, year_lowbyte, month, day_of_month, _, hour, minute, second, hundredths, deviation_highbyte, deviation_lowbyte, _ = self.contents
         year = year_highbyte*256+year_lowbyte
-        deviation = deviation_highbyte*256 + deviation_lowbyte
+        deviation = int.from_bytes((deviation_highbyte, deviation_lowbyte), 'big', signed=True)
         return datetime.datetime(year=year if year != 0xffff else datetime.MINYEAR,
                                  month=month if month not in {0xff, 0xfe, 0xfd} else 1,
                                  day=day_of_month if day_of_month not in {0xff, 0xfe, 0xfd} else 1,
@@ -2102,15 +2102,15 @@ class DateTime(__DateTime, __Date, __Time, SimpleDataType):
                                  minute=minute if minute != 0xff else 0,
                                  second=second if second != 0xff else 0,
                                  microsecond=hundredths*10000 if hundredths != 0xff else 0,
-                                 tzinfo=datetime.timezone.utc if deviation == 0x8000 else datetime.timezone(datetime.timedelta(minutes=deviation)))
+                                 tzinfo=datetime.timezone.utc if deviation == -0x8000 else datetime.timezone(datetime.timedelta(minutes=deviation)))
 
     @property
     def time_zone(self) -> datetime.timezone | None:
         """ Return timezone from deviation """
-        deviation = self.contents[9]*256 + self.contents[10]
-        if deviation == 0x8000:
+        deviation = int.from_bytes(self.contents[9:11], 'big', signed=True)
+        if deviation == -0x8000:
             return None
-        elif -720 <= deviation >= 720:
+        elif -720 <= deviation <= 720:
             return datetime.timezone(datetime.timedelta(minutes=deviation))
         else:
             raise ValueError(F'Deviation must be from -720..720 got {deviation}')
-- 
2.43.0


From fc2558c3874c7733dcd6cdb2f306a40a72a8fb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:36 +0000
Subject: [PATCH 050/113] fix: refuse date-time contents of another size

---
 src/DLMS_SPODES/types/common_data_types.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index cc13ad2..390de2e 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -2031,6 +2031,8 @@ class DateTime(__DateTime, __Date, __Time, SimpleDataType):
 
     def __init__(self, value: datetime.datetime | datetime.date | bytearray | bytes | str = None):
         super(DateTime, self).__init__(value)
+        if len(self.contents) != len(self):
+            raise ValueError(F'In the DateTime type expected length {len(self)}, but got {len(self.contents)}')
         self.check_date(self.contents[0:5])
         self.check_time()
 
-- 
2.43.0


From 203aeb15fe212d56c9f7a8e95acb0ee36c948144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:54 +0000
Subject: [PATCH 051/113] fix: give selective-access, event-notification and
 action their own conformance bits

---
 src/DLMS_SPODES/enums.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/enums.py b/src/DLMS_SPODES/enums.py
index 45b9018..5f09368 100644
--- a/src/DLMS_SPODES/enums.py
+++ b/src/DLMS_SPODES/enums.py
@@ -247,9 +247,9 @@ class Conformance(IntFlag):
     PARAMETERIZED_ACCESS = 0b100_0000_0000_0000_0000
     GET = 0b1000_0000_0000_0000_0000
     SET = 0b1_0000_0000_0000_0000_0000
-    SELECTIVE_ACCESS = 0b10_0000_0000_0000_0000
-    EVENT_NOTIFICATION = 0b100_0000_0000_0000_0000
-    ACTION = 0b1000_0000_0000_0000_0000
+    SELECTIVE_ACCESS = 0b10_0000_0000_0000_0000_0000
+    EVENT_NOTIFICATION = 0b100_0000_0000_0000_0000_0000
+    ACTION = 0b1000_0000_0000_0000_0000_0000
 
     @cached_property
     def content(self) -> bytes:
-- 
2.43.0


From 13098d6361137dfe64031ff2d4145aa8ea0af380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:54 +0000
Subject: [PATCH 052/113] fix: key the script service texts by the numbers of
 the standard

---
 src/DLMS_SPODES/config.toml | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/config.toml b/src/DLMS_SPODES/config.toml
index 79dcfe5..346af01 100644
--- a/src/DLMS_SPODES/config.toml
+++ b/src/DLMS_SPODES/config.toml
@@ -1492,8 +1492,8 @@ CertificateIdentificationType = [
     {e=1, v="Идентификация сертификата по серийному номеру"},
 ]
 ServiceId = [
-    {e=0, v="Запись в атрибут"},
-    {e=1, v="Выполнить конкретный метод"},
+    {e=1, v="Запись в атрибут"},
+    {e=2, v="Выполнить конкретный метод"},
 ]
 TYPE = [
     {e=1, v="Размер времени выполнения = 1; Подстановочный знак в дате разрешен"},
-- 
2.43.0


From 97a78bb9d58db814abe91b2b6db8eb79e12c7de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:44 +0000
Subject: [PATCH 053/113] fix: refuse attribute and method numbers below one

---
 .../cosem_interface_classes/cosem_interface_class.py           | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
index cc696c8..defc499 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
@@ -192,11 +192,14 @@ class COSEMInterfaceClasses(ABC):
         """return element by order index. Override in each new class"""
         match i:
             case 1: return _LN_ELEMENT
+            case _ if i < 1: raise IndexError(F"not support index={i} as attribute")
             case _: return cls.A_ELEMENTS[i - 2]
 
     @classmethod
     def get_meth_element(cls, i: int) -> ICElement:
         """ implement in subclasses with methods """
+        if i < 1:
+            raise IndexError(F"not support index={i} as method")
         return cls.M_ELEMENTS[i - 1]
 
     @abstractmethod
-- 
2.43.0


From ca61246df2d85c0c0c20df476b8c14d953f66250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:02 +0000
Subject: [PATCH 054/113] fix: number the method accessors of Security setup
 version 1 as declared

---
 .../security_setup/ver1.py                      | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/security_setup/ver1.py b/src/DLMS_SPODES/cosem_interface_classes/security_setup/ver1.py
index 98cf732..62fbf3c 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/security_setup/ver1.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/security_setup/ver1.py
@@ -140,17 +140,26 @@ class SecuritySetup(ver0.SecuritySetup):
     def key_transfer(self) -> KeyTransferData:
         return self .get_meth(2)
 
+    @property
     def key_agreement(self) -> KeyAgreement:
         return self .get_meth(3)
 
-    def generate_certificate_request(self) -> KeyPair:
+    @property
+    def generate_key_pair(self) -> KeyPair:
         return self .get_meth(4)
 
-    def import_certificate(self) -> cdt.OctetString:
+    @property
+    def generate_certificate_request(self) -> KeyPair:
         return self .get_meth(5)
 
-    def export_certificate(self) -> CertificateIdentification:
+    @property
+    def import_certificate(self) -> cdt.OctetString:
         return self .get_meth(6)
 
-    def remove_certificate(self) -> CertificateIdentification:
+    @property
+    def export_certificate(self) -> CertificateIdentification:
         return self .get_meth(7)
+
+    @property
+    def remove_certificate(self) -> CertificateIdentification:
+        return self .get_meth(8)
-- 
2.43.0


From 4a595eb32047eb53c4c3d87f79baad83a0e7cb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:02 +0000
Subject: [PATCH 055/113] fix: name the accessor of the Register monitor
 actions as declared

---
 src/DLMS_SPODES/cosem_interface_classes/register_monitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/register_monitor.py b/src/DLMS_SPODES/cosem_interface_classes/register_monitor.py
index 7b6b9a4..2a6a800 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/register_monitor.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/register_monitor.py
@@ -42,7 +42,7 @@ class RegisterMonitor(ic.COSEMInterfaceClasses):
         return self.get_attr(3)
 
     @property
-    def threshold_normal(self) -> Actions:
+    def actions(self) -> Actions:
         return self.get_attr(4)
 
     def __set_threshold_type(self):
-- 
2.43.0


From 1809eac0cc57a23377ee6f006cec05ce85d913d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:02 +0000
Subject: [PATCH 056/113] fix: declare next_period with Demand register, not
 with Register

---
 .../cosem_interface_classes/demand_register/ver0.py           | 4 +++-
 src/DLMS_SPODES/cosem_interface_classes/register.py           | 4 +---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/demand_register/ver0.py b/src/DLMS_SPODES/cosem_interface_classes/demand_register/ver0.py
index c484bb5..0dbb9c5 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/demand_register/ver0.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/demand_register/ver0.py
@@ -15,7 +15,9 @@ class DemandRegister(ic.COSEMInterfaceClasses):
                   ic.ICAElement("start_time_current", cst.OctetStringDateTime, classifier=ic.Classifier.DYNAMIC),
                   ic.ICAElement("period", cdt.DoubleLongUnsigned, min=1),
                   ic.ICAElement("number_of_periods", cdt.LongUnsigned, min=1, default=1))
-    M_ELEMENTS = ic.ICMElement("reset", integers.Only0),
+    M_ELEMENTS = (
+        ic.ICMElement("reset", integers.Only0),
+        ic.ICMElement("next_period", integers.Only0))
     scaler_unit_not_settable: bool
 
     @property
diff --git a/src/DLMS_SPODES/cosem_interface_classes/register.py b/src/DLMS_SPODES/cosem_interface_classes/register.py
index 1d78b4f..b0680c0 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/register.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/register.py
@@ -12,9 +12,7 @@ class Register(ic.COSEMInterfaceClasses):
     scaler_unit_not_settable: bool
     A_ELEMENTS = (ic.ICAElement("value", choices.register, classifier=ic.Classifier.NOT_SPECIFIC),
                   ic.ICAElement("scaler_unit", cdt.ScalUnitType))
-    M_ELEMENTS = (
-        ic.ICMElement("reset", integers.Only0),
-        ic.ICMElement("next_period", integers.Only0))
+    M_ELEMENTS = ic.ICMElement("reset", integers.Only0),
 
     def characteristics_init(self):
         self._cbs_attr_post_init.update({2: self.__set_value_data_type,
-- 
2.43.0


From 2577d1afc703b0bf710fbf9fbbbfbff6451ef68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:09 +0000
Subject: [PATCH 057/113] fix: refuse forced values and record times of
 attributes that do not exist

---
 .../cosem_interface_classes/cosem_interface_class.py        | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
index defc499..0393586 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
@@ -217,6 +217,8 @@ class COSEMInterfaceClasses(ABC):
     def set_attr_force(self,
                        index: int,
                        value: cdt.CommonDataType):
+        if index < 1:
+            raise IndexError(F"not support {index=} as attribute")
         self.__attributes[index-1] = value
         """use for change official types to custom(not valid)"""
 
@@ -283,9 +285,13 @@ class COSEMInterfaceClasses(ABC):
             raise IndexError(F'not support {index=} as attribute')
 
     def get_record_time(self, index: int) -> cdt.DateTime | None:
+        if index < 2:
+            raise IndexError(F"not support {index=} for record time")
         return self.__record_time[index-2]
 
     def set_record_time(self, index: int, value: str | bytes | cdt.DateTime):
+        if index < 2:
+            raise IndexError(F"not support {index=} for record time")
         self.__record_time[index-2] = cdt.DateTime(value)
 
     def get_index_with_attributes(self) -> Iterator[tuple[int, cdt.CommonDataType | None]]:
-- 
2.43.0


From 738c29162b241e0cb4d487c590ea33caabfc481a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:05 +0000
Subject: [PATCH 058/113] fix: validate the Sunday of the week profiles too

---
 src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py b/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py
index a4aea9a..379c1fb 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py
@@ -293,7 +293,7 @@ class ActivityCalendar(ic.COSEMInterfaceClasses):
                     weeks.append(week_profile.week_profile_name)
                 else:
                     duplicates.add(week_profile.week_profile_name)
-                for i in range(1, 7):
+                for i in range(1, 8):
                     if week_profile[i] not in days:
                         raise ic.ObjectValidationError(
                             ln=self.logical_name,
-- 
2.43.0


From 4ef69cca114adc61e221eee72b98b2df4a9921c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:05 +0000
Subject: [PATCH 059/113] fix: refuse image block numbers below zero

---
 src/DLMS_SPODES/cosem_interface_classes/image_transfer/ver0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/image_transfer/ver0.py b/src/DLMS_SPODES/cosem_interface_classes/image_transfer/ver0.py
index 08765f1..5f992ef 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/image_transfer/ver0.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/image_transfer/ver0.py
@@ -138,7 +138,7 @@ class ImageTransfer(ic.COSEMInterfaceClasses):
 
     def set_block_for_transfer(self, index: int):
         """ set block transfer number. IndexError if index more when blocks size """
-        if index > (len(self.__blocks_for_update) - 1):
+        if not 0 <= index < len(self.__blocks_for_update):
             raise IndexError(F"got block {index=}, expected 0..{len(self.__blocks_for_update)-1}")
         self.image_block_transfer.set((index, self.__blocks_for_update[index]))
 
-- 
2.43.0


From e86b713f432be338f03424720ec89c3a6a2a9502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:05 +0000
Subject: [PATCH 060/113] fix: refuse an image without octets or with block
 size zero

---
 .../cosem_interface_classes/image_transfer/ver0.py            | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/image_transfer/ver0.py b/src/DLMS_SPODES/cosem_interface_classes/image_transfer/ver0.py
index 5f992ef..5d0eed0 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/image_transfer/ver0.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/image_transfer/ver0.py
@@ -96,6 +96,10 @@ class ImageTransfer(ic.COSEMInterfaceClasses):
     def set_image_for_update(self, value: bytes, identifier: bytearray):
         """ set to image_for_update from bytes and set to first block if identifier is new """
         block_size: int = self.image_block_size.decode()
+        if block_size == 0:
+            raise ValueError(F"got {block_size=}, expected 1 or more")
+        if len(value) == 0:
+            raise ValueError("got an empty image")
         self.clear_image()
         while len(value) != 0:
             self.__blocks_for_update.append(bytearray(value[:block_size]))
-- 
2.43.0


From 8a1a998aadb8cb133f506b607efaab88680827d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:05 +0000
Subject: [PATCH 061/113] fix: refuse a schedule entry whose index is already
 in the table

---
 src/DLMS_SPODES/cosem_interface_classes/schedule.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/schedule.py b/src/DLMS_SPODES/cosem_interface_classes/schedule.py
index 332d2fb..8efe805 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/schedule.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/schedule.py
@@ -56,6 +56,13 @@ class Entries(cdt.Array):
             schedule_table_entry: ScheduleTableEntry
             schedule_table_entry.index.set_callback(self.get_indexes)
 
+    def append_validate(self, element: ScheduleTableEntry):
+        """validate index from array"""
+        if element.index in (entry.index for entry in self.values):
+            raise ValueError(F"can't append in {self}, {element.index} already exist")
+        else:
+            """validate OK"""
+
     def get_indexes(self) -> list[int]:
         """ getter for callback Index """
         return [entries_element.index.decode() for entries_element in self]
-- 
2.43.0


From 900cd418f40d523912ca67eb480aa6816c21bc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:54 +0000
Subject: [PATCH 062/113] fix: compare the authentication mechanisms of a
 method access by number

---
 .../cosem_interface_classes/association_ln/ver0.py            | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py b/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
index 3beab1c..5db3efd 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
@@ -491,9 +491,9 @@ class AssociationLN(ic.COSEMInterfaceClasses):
             case pdu.MethodAccess.ACCESS:
                 return True
             case pdu.MethodAccess.AUTHENTICATED_ACCESS:
-                if not m_id:
+                if m_id is None:
                     m_id = self.authentication_mechanism_name.mechanism_id_element
-                if m_id >= mechanism_id.LOW:
+                if int(m_id) >= int(mechanism_id.LOW):
                     return True
                 else:
                     return False
-- 
2.43.0


From 2f2936824012f2f7902d50c02226cd38570c571d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:54 +0000
Subject: [PATCH 063/113] fix: make class identifiers from numbers

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py           | 2 +-
 .../cosem_interface_classes/implementations/profile_generic.py  | 2 +-
 src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 9f23150..32cb800 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1460,7 +1460,7 @@ class Collection:
             raise exc.NoObject(F"not found at least one DLMS Objects from collection with {values=}")
 
     def get_objects_by_class_id(self, value: int | CosemClassId) -> list[InterfaceClass]:
-        class_id = CosemClassId(value)
+        class_id = CosemClassId(int(value))
         return list(filter(lambda obj: obj.CLASS_ID == class_id, self.__container.values()))
 
     def get_objects_descriptions(self) -> list[tuple[cst.LogicalName, cdt.LongUnsigned, cdt.Unsigned]]:
diff --git a/src/DLMS_SPODES/cosem_interface_classes/implementations/profile_generic.py b/src/DLMS_SPODES/cosem_interface_classes/implementations/profile_generic.py
index b0e657e..ea88372 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/implementations/profile_generic.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/implementations/profile_generic.py
@@ -61,7 +61,7 @@ class SPODES3DisplayReadout(ver1.ProfileGeneric):
         # rename CaptureObjectDefinition's and adding object if it absense in collection
         for el_value in self.capture_objects:
             el_value: structs.CaptureObjectDefinition
-            obj = self.collection.add_if_missing(class_id=ut.CosemClassId(el_value.class_id.contents),
+            obj = self.collection.add_if_missing(class_id=ut.CosemClassId(int(el_value.class_id)),
                                                  version=None,
                                                  logical_name=el_value.logical_name)
             # self.collection.raise_before(obj, self)
diff --git a/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py b/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
index 233df99..938eab2 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
@@ -152,7 +152,7 @@ class ProfileGeneric(ic.COSEMInterfaceClasses):
             raise ValueError(F"{self}: create buffer Struct type, not set <capture_object> attribute. Need initiate <capture_objects> before")
         for el_value in self.capture_objects:
             el_value: structs.CaptureObjectDefinition
-            obj = self.collection.add_if_missing(class_id=ut.CosemClassId(el_value.class_id.contents),
+            obj = self.collection.add_if_missing(class_id=ut.CosemClassId(int(el_value.class_id)),
                                                  version=None,
                                                  logical_name=el_value.logical_name)
             el_value.set_name(self.collection.get_name_and_type(el_value)[0][-1])
-- 
2.43.0


From d85e8898799ded616219cd98485f62f20a1d95b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:02 +0000
Subject: [PATCH 064/113] fix: answer the queries of a collection from its
 current content

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 32cb800..a2ae3b4 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1404,7 +1404,6 @@ class Collection:
                 logger.warning(F'Dont remove with: {logical_name}')
                 return False
 
-    @lru_cache(maxsize=100)  # amount of all classID
     def find_version(self, class_id: CosemClassId) -> cdt.Unsigned:
         """use for add new object from profile_generic if absence in object list"""
         return next(filter(lambda obj: obj.CLASS_ID == class_id, self.__container.values())).VERSION
@@ -1692,7 +1691,6 @@ class Collection:
         else:
             raise ValueError(F"object with {ln} is not {ScriptTable.CLASS_ID}")
 
-    @lru_cache(4)
     def get_association_id(self, client_sap: enums.ClientSAP) -> int:
         """return id(association instance) from it client address without current"""
         for ass in self.get_objects_by_class_id(classID.ASSOCIATION_LN):
@@ -1703,7 +1701,6 @@ class Collection:
         else:
             raise ValueError(F"absent association with {client_sap}")
 
-    @lru_cache(maxsize=1000)
     def is_readable(self, ln: cst.LogicalName,
                     index: int,
                     association_id: int,
@@ -1715,7 +1712,6 @@ class Collection:
             security_policy=security_policy
         )
 
-    @lru_cache(maxsize=1000)
     def is_writable(self, ln: cst.LogicalName,
                     index: int,
                     association_id: int,
@@ -1727,7 +1723,6 @@ class Collection:
             security_policy=security_policy
         )
 
-    @lru_cache(maxsize=1000)
     def is_accessible(self, ln: cst.LogicalName,
                       index: int,
                       association_id: int,
@@ -1741,7 +1736,6 @@ class Collection:
             m_id=m_id
         )
 
-    @lru_cache(maxsize=100)
     def get_name_and_type(self, value: structs.CaptureObjectDefinition) -> tuple[list[str], Type[cdt.CommonDataType]]:
         """ return names and type of element from collection"""
         names: list[str] = list()
-- 
2.43.0


From 1520560db5291a3f16e5185d742197424dd99525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:02 +0000
Subject: [PATCH 065/113] fix: give the current objects of a collection, not
 the first seen

---
 .../cosem_interface_classes/collection.py            | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index a2ae3b4..2d49a85 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -9,7 +9,7 @@ from struct import pack
 import datetime
 from dataclasses import dataclass
 from itertools import count, chain
-from functools import reduce, cached_property, lru_cache
+from functools import reduce, lru_cache
 from typing import TypeAlias, Iterator, Type, Self, Callable, Literal
 import logging
 from ..version import AppVersion
@@ -1510,11 +1510,11 @@ class Collection:
         else:
             return obj
 
-    @cached_property
+    @property
     def LDN(self) -> impl.data.LDN:
         return self.__get_object(o.LDN)
 
-    @cached_property
+    @property
     def current_association(self) -> AssociationLN:
         return self.__get_object(o.CURRENT_ASSOCIATION)
 
@@ -1524,7 +1524,7 @@ class Collection:
     def getAssociationBySAP(self, SAP: enums.ClientSAP) -> AssociationLN:
         return self.__get_object(bytes((0, 0, 40, 0, self.get_association_id(SAP), 255)))
 
-    @cached_property
+    @property
     def PUBLIC_ASSOCIATION(self) -> AssociationLN:
         return self.__get_object(bytes((0, 0, 40, 0, 1, 255)))
 
@@ -1547,7 +1547,7 @@ class Collection:
     def getIECHDLCSetup(self, ch: int = 0) -> IECHDLCSetup:
         return self.__get_object(bytes((0, ch, 22, 0, 0, 255)))
 
-    @cached_property
+    @property
     def TCP_UDP_setup(self) -> TCPUDPSetup:
         return self.__get_object(bytes((0, 0, 25, 0, 0, 255)))
 
@@ -1574,7 +1574,7 @@ class Collection:
     def firmware_version(self) -> Data:
         return self.__get_object(bytes((0, 0, 96, 1, 2, 255)))
 
-    @cached_property
+    @property
     def device_type(self) -> Data:
         return self.__get_object(bytes((0, 0, 96, 1, 1, 255)))
 
-- 
2.43.0


From 7a2ea3306a8311d0eaa466010fd715b12cc3132c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:36 +0000
Subject: [PATCH 066/113] fix: declare the class identifier and version of
 every versioned class

---
 src/DLMS_SPODES/cosem_interface_classes/association_sn/ver0.py | 1 +
 src/DLMS_SPODES/cosem_interface_classes/gsm_diagnostic/ver1.py | 1 +
 src/DLMS_SPODES/cosem_interface_classes/gsm_diagnostic/ver2.py | 3 +++
 src/DLMS_SPODES/cosem_interface_classes/iec_hdlc_setup/ver0.py | 1 +
 .../cosem_interface_classes/profile_generic/ver0.py            | 1 +
 src/DLMS_SPODES/cosem_interface_classes/push_setup/ver0.py     | 1 +
 src/DLMS_SPODES/cosem_interface_classes/push_setup/ver1.py     | 3 +++
 7 files changed, 11 insertions(+)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/association_sn/ver0.py b/src/DLMS_SPODES/cosem_interface_classes/association_sn/ver0.py
index de68d82..100e965 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/association_sn/ver0.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/association_sn/ver0.py
@@ -4,6 +4,7 @@ from ..__class_init__ import *
 class AssociationSN(ic.COSEMInterfaceClasses):
     """dummy class"""
     CLASS_ID = classID.ASSOCIATION_SN
+    VERSION = Version.V0
 
     def __new__(cls, *args, **kwargs):
         raise ValueError(F"version: {__name__[-1]} of {cls.__class__.__name__} not support framework")
diff --git a/src/DLMS_SPODES/cosem_interface_classes/gsm_diagnostic/ver1.py b/src/DLMS_SPODES/cosem_interface_classes/gsm_diagnostic/ver1.py
index b4b2ac4..cc1eff6 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/gsm_diagnostic/ver1.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/gsm_diagnostic/ver1.py
@@ -27,6 +27,7 @@ class AdjacentCells(cdt.Array):
 
 
 class GSMDiagnostic(ver0.GSMDiagnostic):
+    VERSION = Version.V1
     A_ELEMENTS = (ver0.GSMDiagnostic.get_attr_element(2),
                   ver0.GSMDiagnostic.get_attr_element(3),
                   ver0.GSMDiagnostic.get_attr_element(4),
diff --git a/src/DLMS_SPODES/cosem_interface_classes/gsm_diagnostic/ver2.py b/src/DLMS_SPODES/cosem_interface_classes/gsm_diagnostic/ver2.py
index 9d6a489..839d4bf 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/gsm_diagnostic/ver2.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/gsm_diagnostic/ver2.py
@@ -2,6 +2,9 @@ from ..__class_init__ import *
 
 
 class GSMDiagnostic(ic.COSEMInterfaceClasses):
+    CLASS_ID = classID.GSM_DIAGNOSTIC
+    VERSION = Version.V2
+
     def __new__(cls, *args, **kwargs):
         raise ValueError(F"version: {__name__[-1]} of {cls.__class__.__name__} not support framework")
 
diff --git a/src/DLMS_SPODES/cosem_interface_classes/iec_hdlc_setup/ver0.py b/src/DLMS_SPODES/cosem_interface_classes/iec_hdlc_setup/ver0.py
index 38739a8..e8e5ad1 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/iec_hdlc_setup/ver0.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/iec_hdlc_setup/ver0.py
@@ -3,6 +3,7 @@ from ..__class_init__ import *
 
 class IECHDLCSetup(ic.COSEMInterfaceClasses):
     CLASS_ID = classID.IEC_HDLC_SETUP
+    VERSION = Version.V0
 
     def __new__(cls, *args, **kwargs):
         raise ValueError(F"version: {__name__[-1]} of {cls.__class__.__name__} not support framework")
diff --git a/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver0.py b/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver0.py
index 91c2a63..ab93f98 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver0.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver0.py
@@ -4,6 +4,7 @@ from ..__class_init__ import *
 class ProfileGeneric(ic.COSEMInterfaceClasses):
     """dummy class"""
     CLASS_ID = classID.PROFILE_GENERIC
+    VERSION = Version.V0
 
     def __new__(cls, *args, **kwargs):
         raise ValueError(F"version: {__name__[-1]} of {cls.__class__.__name__} not support framework")
diff --git a/src/DLMS_SPODES/cosem_interface_classes/push_setup/ver0.py b/src/DLMS_SPODES/cosem_interface_classes/push_setup/ver0.py
index 69c5cae..f9aee27 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/push_setup/ver0.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/push_setup/ver0.py
@@ -4,6 +4,7 @@ from ..__class_init__ import *
 class PushSetup(ic.COSEMInterfaceClasses):
     """dummy class"""
     CLASS_ID = classID.PUSH_SETUP
+    VERSION = Version.V0
 
     def __new__(cls, *args, **kwargs):
         raise ValueError(F"version: {__name__[-1]} of {cls.__class__.__name__} not support framework")
diff --git a/src/DLMS_SPODES/cosem_interface_classes/push_setup/ver1.py b/src/DLMS_SPODES/cosem_interface_classes/push_setup/ver1.py
index a2564a8..ff77073 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/push_setup/ver1.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/push_setup/ver1.py
@@ -3,6 +3,9 @@ from ..__class_init__ import *
 
 class PushSetup(ic.COSEMInterfaceClasses):
     """dummy class"""
+    CLASS_ID = classID.PUSH_SETUP
+    VERSION = Version.V1
+
     def __new__(cls, *args, **kwargs):
         raise ValueError(F"version: {__name__[-1]} of {cls.__class__.__name__} not support framework")
 
-- 
2.43.0


From 5524fa9caf0ea8087c104c2bd3d887d6154626ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:36 +0000
Subject: [PATCH 067/113] fix: know push setup and association SN outside their
 recommended codes

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 2d49a85..d42b205 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -221,6 +221,7 @@ common_interface_class_map: dict[int, dict[[int, None], Type[InterfaceClass]]] =
     9: ScriptTableMap,
     10: ScheduleMap,
     11: SpecialDaysTableMap,
+    12: AssociationSNMap,
     15: AssociationLNMap,
     18: ImageTransferMap,
     20: ActivityCalendarMap,
@@ -228,6 +229,7 @@ common_interface_class_map: dict[int, dict[[int, None], Type[InterfaceClass]]] =
     22: SingleActionScheduleMap,
     23: IECHDLCSetupMap,
     27: ModemConfigurationMap,
+    40: PushSetupMap,
     41: TCPUDPSetupMap,
     42: IPv4SetupMap,
     45: GPRSModemSetupMap,
-- 
2.43.0


From a019db90a829de5f8842343531c9e6fe0f9a9b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:36 +0000
Subject: [PATCH 068/113] fix: look up the C group of a logical name by its C
 value

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index d42b205..96904dd 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -561,7 +561,7 @@ def get_type(class_id: CosemClassId,
                 c_m = func_map.get((ln.contents[:5]), None)
                 if not c_m:
                     # try search in C group
-                    c_m = func_map.get((ln.contents[:1]+ln.contents[3:4]), common_interface_class_map)
+                    c_m = func_map.get((ln.contents[:1]+ln.contents[2:3]), common_interface_class_map)
     return get_interface_class(class_map=c_m,
                                c_id=class_id,
                                ver=version)
-- 
2.43.0


From 07e531901a711fa1996de10c5f6be7baab8892ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:36 +0000
Subject: [PATCH 069/113] fix: key manufacturer specific objects so that the
 lookup reaches them

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 96904dd..9386181 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -467,7 +467,7 @@ __func_map_for_create: dict[FOR_C | FOR_CD | FOR_CDE | FOR_BCDE, tuple[CosemClas
     (1, 99, (1, 2, 11, 12, 97, 98, 99)): ProfileGenericMap,
     (1, 99, (3, 13, 14), 0): ProfileGenericMap,
     (1, 99, 10, (1, 2, 3)): ProfileGenericMap,
-    (1, _CUMULATIVE, _RU_CHANGE_LIMIT_LEVEL): RegisterMap,
+    (1, 0, _CUMULATIVE, _RU_CHANGE_LIMIT_LEVEL, 0): RegisterMap,
     (1, _NOT_PROCESSING_OF_MEASUREMENT_VALUES, tuple(chain(_CUMULATIVE, _TIME_INTEGRAL_VALUES, _CONTRACTED_VALUES,
                                                            _UNDER_OVER_LIMIT_THRESHOLDS, _UNDER_OVER_LIMIT_OCCURRENCE_COUNTERS,
                                                            _UNDER_OVER_LIMIT_DURATIONS, _UNDER_OVER_LIMIT_MAGNITUDES))): (RegisterMap, ExtendedRegisterMap),
@@ -489,7 +489,7 @@ __func_map_for_create.update({
     (0, 96, 3, 20): ClassMap({0: impl.arbitrator.SPODES3Arbitrator}),
     (0, 96, 5, 1): ClassMap({0: impl.data.SPODES3PowerQuality1Event}),
     (0, 96, 5, 4): ClassMap({0: impl.data.SPODES3PowerQuality2Event}),
-    (0, 96, 5, 132): ClassMap({0: impl.data.Unsigned}),  # TODO: make according with СПОДЭС3 13.9. Контроль чередования фаз
+    (0, 0, 96, 5, 132): ClassMap({0: impl.data.Unsigned}),  # TODO: make according with СПОДЭС3 13.9. Контроль чередования фаз
     (0, 96, 11, 0): ClassMap({0: impl.data.SPODES3VoltageEvent}),
     (0, 96, 11, 1): ClassMap({0: impl.data.SPODES3CurrentEvent}),
     (0, 96, 11, 2): ClassMap({0: impl.data.SPODES3CommutationEvent}),
@@ -524,7 +524,7 @@ func_maps["SPODES_3"] = get_func_map(__func_map_for_create)
 __func_map_for_create.update({
     (0, 128, 96, 13, 1): ClassMap({0: impl.data.ITEBitMap}),
     (0, 128, 154, 0, 0): ClassMap({0: impl.data.KPZGSMPingIP}),
-    (0, 0, 128, (100, 101, 102, 103, 150, 151, 152, 170)): DataMap,
+    **{(0, 0, 128, d, 0): DataMap for d in (100, 101, 102, 103, 150, 151, 152, 170)},
 })
 func_maps["KPZ"]: FUNC_MAP = get_func_map(__func_map_for_create)
 # KPZ1 with bag in log event profiles
-- 
2.43.0


From c6c8c19fc7239affa519f80ec778d0105d20bedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:36 +0000
Subject: [PATCH 070/113] fix: group payment, twisted pair and gas objects
 without an error

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 9386181..bf68f52 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -2317,7 +2317,7 @@ def get_relation_group(ln: cst.LogicalName) -> RelationGroup:
         elif ln.c == 18 and ln.d == 0:
             return media_id.ARRAY_MANAGER_OBJECT
         elif ln.c == 19:
-            if (ln.d in range(0, 10) and ln.e == 0) or ln.d in range(10, 50) or ln.d in (range(50, 60) and ln.e in (1, 2)):
+            if (ln.d in range(0, 10) and ln.e == 0) or ln.d in range(10, 50) or (ln.d in range(50, 60) and ln.e in (1, 2)):
                 return media_id.PAYMENT_METERING_RELATED_OBJECTS
         elif ln.c == 20 and ln.d == 0 and ln.e in (0, 1):
             return media_id.IEC_LOCAL_PORT_SETUP_OBJECTS
@@ -2326,7 +2326,7 @@ def get_relation_group(ln: cst.LogicalName) -> RelationGroup:
         elif ln.c == 22 and ln.d == 0 and ln.e == 0:
             return media_id.IEC_HDLC_SETUP_OBJECTS
         elif ln.c == 23:
-            if (ln.d in 0, 1, 2 and ln.e == 0) or ln.d == 3:
+            if (ln.d in (0, 1, 2) and ln.e == 0) or ln.d == 3:
                 return media_id.IEC_TWISTED_PAIR_1_SETUP_OBJECTS
         elif ln.c == 24:
             if (ln.d in (0, 1, 4, 5, 6) and ln.e == 0) or (ln.d in (2, 8, 9)):
@@ -2613,11 +2613,11 @@ def get_relation_group(ln: cst.LogicalName) -> RelationGroup:
             elif ln.d in chain(range(33, 42), range(52, 63), range(72, 81), range(90, 99)) and ln.f in chain(__range100_and_101_125_and_255, (126,)):
                 return media_id.MEASURED_VALUES_GAS_INDEXES_AND_INDEX_DIFFERENCES
         elif ln.c == 42 and ln.e == 0:
-            if ln.d in chain(0, 1, 2, 13, range(15, 19), range(19, 31), range(35, 51), range(55, 71)) and ln.f == 255:
+            if ln.d in chain((0, 1, 2, 13), range(15, 19), range(19, 31), range(35, 51), range(55, 71)) and ln.f == 255:
                 return media_id.MEASURED_VALUES_GAS_FLOW_RATE
             elif ln.d in chain(range(31, 35), range(51, 55)) and ln.f in chain(__range100_and_101_125_and_255, (126,)):
                 return media_id.MEASURED_VALUES_GAS_FLOW_RATE
-        elif ln.c in chain((41, 42), range(44, 50)) and ln.d in (0, 2, 3, 10, 11, 13, range(15, 92)) and ln.e == 0 and ln.f == 255:
+        elif ln.c in chain((41, 42), range(44, 50)) and ln.d in chain((0, 2, 3, 10, 11, 13), range(15, 92)) and ln.e == 0 and ln.f == 255:
             return media_id.MEASURED_VALUES_GAS_PROCESS_VALUES
         elif ln.c in range(51, 56):
             if ln.d in (0, 2, 3, 10, 11) and ln.e in chain((0, 1), range(11, 29)) and ln.f == 255:
-- 
2.43.0


From d731e81b4bd4a90f76844c190f55465e8f55a166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:36 +0000
Subject: [PATCH 071/113] fix: keep the medium of objects without a group of
 their own

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index bf68f52..a2b4c54 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -2665,7 +2665,7 @@ def get_relation_group(ln: cst.LogicalName) -> RelationGroup:
             return media_id.DATA_PROFILE_OBJECTS_WATER
         else:
             return media_id.WATER
-    return media_id.OTHER_MEDIA
+    return next((m for m in RelationGroups if m == ln.a), media_id.OTHER_MEDIA)
 
 
 DLMSObjectContainer: TypeAlias = Collection | list[InterfaceClass] | filter
-- 
2.43.0


From bf7c50cd0cea7fa4ed7199a0c1532a7422bf85f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:00 +0000
Subject: [PATCH 072/113] fix: group error registers, lists and profiles of
 thermal meters

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index a2b4c54..187c8d5 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -2567,7 +2567,7 @@ def get_relation_group(ln: cst.LogicalName) -> RelationGroup:
                     return media_id.MEASURED_VALUES_THERMAL_CONSUMPTION
             elif ln.d == 6 and ln.e == 255 and ln.f == 255:
                 return media_id.MEASURED_VALUES_THERMAL_CONSUMPTION
-        elif ln.e in range(10):
+        elif ln.c in range(8, 14) and ln.e in range(10):
             if ln.f in __range100_and_101_125_and_255:
                 if ln.c in range(1, 8) and ln.d in (5, 15):
                     return media_id.MEASURED_VALUES_THERMAL_ENERGY
-- 
2.43.0


From a07890da0c2e6a91da5bdd7d9a828e77c20fd4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:49 +0000
Subject: [PATCH 073/113] fix: keep identity values of a collection that are
 false as conditions

---
 .../cosem_interface_classes/collection.py            | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 187c8d5..402817c 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -651,7 +651,7 @@ class Collection:
         return self.__dlms_ver
 
     def set_dlms_ver(self, value: int):
-        if not self.__dlms_ver:
+        if self.__dlms_ver is None:
             self.__dlms_ver = value
         else:
             if value != self.__dlms_ver:
@@ -664,7 +664,7 @@ class Collection:
         return self.__manufacturer
 
     def set_manufacturer(self, value: bytes):
-        if not self.__manufacturer:
+        if self.__manufacturer is None:
             self.__manufacturer = value
         else:
             if value != self.__manufacturer:
@@ -677,7 +677,7 @@ class Collection:
         return self.__country
 
     def set_country(self, value: CountrySpecificIdentifiers):
-        if not self.__country:
+        if self.__country is None:
             self.__country = value
         else:
             if value != self.__country:
@@ -691,7 +691,7 @@ class Collection:
 
     def set_country_ver(self, value: AppVersion):
         """country version specification"""
-        if not self.__country_ver:
+        if self.__country_ver is None:
             self.__country_ver = value
         else:
             if value != self.__country_ver:
@@ -704,7 +704,7 @@ class Collection:
         return self.__server_type
 
     def set_server_type(self, value: cdt.CommonDataTypes, force: bool = False):
-        if not self.__server_type or force:
+        if self.__server_type is None or force:
             self.__server_type = value
         else:
             if value != self.__server_type:
@@ -736,7 +736,7 @@ class Collection:
 
     def set_collection_ver(self, value: AppVersion):
         """once setting collection version from file"""
-        if not self.__collection_ver:
+        if self.__collection_ver is None:
             self.__collection_ver = value
         else:
             raise ValueError(F"set collection version: {value} failure, already exist")
-- 
2.43.0


From 3cd5edadc5852c471d4fb53265d5cecc8dcc14c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:49 +0000
Subject: [PATCH 074/113] fix: compare server versions without a patch

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 402817c..3c024f8 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -725,7 +725,7 @@ class Collection:
         else:
             if value.major != self.__server_ver[instance].major or value.minor != self.__server_ver[instance].minor:
                 raise ValueError(F"attempt set server version[{instance}]: {value}, existed {self.__server_ver[instance]}. Execute search of type")
-            elif value.patch <= self.__server_ver[instance].patch:
+            elif value.patch is None or (self.__server_ver[instance].patch is not None and value.patch <= self.__server_ver[instance].patch):
                 """success validation"""
             else:
                 raise ValueError(F"got more hi patch: {value} expected before {self.__server_ver[instance].patch}")
-- 
2.43.0


From d6560c38597be885098c2cd8690402b63068ceaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:49 +0000
Subject: [PATCH 075/113] fix: select the specification of a collection without
 version of instance 0

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 3c024f8..a2e9722 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1321,7 +1321,7 @@ class Collection:
             if self.country_ver == AppVersion(3, 0):
                 self.__spec = "SPODES_3"
             if self.manufacturer == b"KPZ":
-                if self.server_ver and self.server_ver.get(0) < AppVersion(1, 3, 30):
+                if (ver := self.server_ver.get(0)) is not None and ver < AppVersion(1, 3, 30):
                     self.__spec = "KPZ1"
                 else:
                     self.__spec = "KPZ"
-- 
2.43.0


From f5d5e60d23202b40245c169d72882f7a7a6c61d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:49 +0000
Subject: [PATCH 076/113] fix: filter objects by medium value and without
 patterns

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index a2e9722..50bfcf5 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -2249,7 +2249,7 @@ class LNPattern:
 def get_filtered(objects: list[InterfaceClass],
                  keys: tuple[CosemClassId | media_id.MediaId | LNPattern, ...]) -> list[InterfaceClass]:
     c_ids: list[CosemClassId] = list()
-    media: list[int] = list()
+    media: list[media_id.MediaId] = list()
     group: list[int] = list()
     patterns: list[LNPattern] = list()
     medias = tuple(m.subgroup for m in RelationGroups)
@@ -2258,7 +2258,7 @@ def get_filtered(objects: list[InterfaceClass],
             c_ids.append(k)
         elif isinstance(k, RelationGroup):
             if (s_g := k.subgroup) in medias:
-                media.append(s_g)
+                media.append(k)
             else:
                 group.append(s_g)
         elif isinstance(k, LNPattern):
@@ -2271,7 +2271,7 @@ def get_filtered(objects: list[InterfaceClass],
             continue
         elif media and get_media_id(obj.logical_name) not in media:
             continue
-        elif obj.logical_name not in patterns:
+        elif patterns and obj.logical_name not in patterns:
             continue
         new_list.append(obj)
     return new_list
-- 
2.43.0


From 67e0cc107b6a6c103fd2ad2eb8cd050e0ec26bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:49 +0000
Subject: [PATCH 077/113] fix: report a collection copy as complete only when
 every object was copied

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 50bfcf5..210fa18 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1497,7 +1497,7 @@ class Collection:
     def copy_objects_attr_values_from(self, other: Collection) -> bool:
         """ Copy collections values and return True if all was writen """
         if len(other) != 0:
-            return bool(reduce(lambda a, b: a or b, map(self.copy_obj_attr_values_from, other.values())))
+            return bool(reduce(lambda a, b: a and b, map(self.copy_obj_attr_values_from, other.values())))
         else:
             return False
 
-- 
2.43.0


From 4ad22c27431e87a001f1e54c72027beb750cf642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:48 +0000
Subject: [PATCH 078/113] fix: copy attribute values of objects of every class

---
 .../cosem_interface_classes/cosem_interface_class.py            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
index 0393586..1d90a1c 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
@@ -294,7 +294,7 @@ class COSEMInterfaceClasses(ABC):
             raise IndexError(F"not support {index=} for record time")
         self.__record_time[index-2] = cdt.DateTime(value)
 
-    def get_index_with_attributes(self) -> Iterator[tuple[int, cdt.CommonDataType | None]]:
+    def get_index_with_attributes(self, in_init_order: bool = False) -> Iterator[tuple[int, cdt.CommonDataType | None]]:
         """ if by initiation order is True then need override method for concrete class"""
         return iter(zip(range(1, self.get_attr_length()+1), self.__attributes))
 
-- 
2.43.0


From b917344b935f88c8c08a8828b39d0fd5311b7266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:21 +0000
Subject: [PATCH 079/113] fix: leave no empty branches in the attribute tree

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 210fa18..7cf0375 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1782,12 +1782,9 @@ class Collection:
                 mode=sort_mode),
             mode=obj_mode)
         stack = [(None, None, ret)]
+        branches = list()
         while len(stack) != 0:
             d, k, v = stack.pop()
-            if isinstance(d, dict):
-                for k_, v_ in tuple(d.items()):
-                    if len(v_) == 0:
-                        d.pop(k_)
             if isinstance(v, list):
                 objects = dict()
                 for obj in v:
@@ -1808,10 +1805,15 @@ class Collection:
                 else:
                     d.pop(k)
             elif isinstance(v, dict):
+                if d is not None:
+                    branches.append((d, k, v))
                 for k_, v_ in v.items():
                     stack.append((v, k_, v_))
             else:
                 raise ValueError('not support')
+        for d, k, v in reversed(branches):
+            if len(v) == 0:
+                d.pop(k)
         return ret
 
     # def decode(self, file_name: str,
-- 
2.43.0


From bee7cff1124e980edd0fb9681f91eab49f474635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:30 +0000
Subject: [PATCH 080/113] fix: save attribute values under the name their
 reader looks up

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 7cf0375..2499dbc 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1205,7 +1205,7 @@ class Collection:
                                 el_attrib: dict = {'index': str(index)}
                                 if with_comment:
                                     object_node.append(ET.Comment(F'{el.NAME}: {attr}'))
-                                ET.SubElement(object_node, 'attribute', attrib=el_attrib).text = attr.encoding.hex()
+                                ET.SubElement(object_node, 'attr', attrib=el_attrib).text = attr.encoding.hex()
                         case _:
                             logger.warning('PASS')
             print("child =", len(object_node))
@@ -1245,7 +1245,7 @@ class Collection:
                     is_empty = False
                     if not object_node:
                         object_node = ET.SubElement(objects, 'object', attrib={'ln': str(obj.logical_name)})
-                    ET.SubElement(object_node, 'attribute', attrib={'index': str(i)}).text = attr.encoding.hex()
+                    ET.SubElement(object_node, 'attr', attrib={'index': str(i)}).text = attr.encoding.hex()
         if not is_empty:
             # TODO: '<!DOCTYPE ITE_util_tree SYSTEM "setting.dtd"> or xsd
             xml_string = ET.tostring(objects, encoding='cp1251', method='xml')
-- 
2.43.0


From c99dbe64220c75889a4e165206b7cffe74cd4a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:30 +0000
Subject: [PATCH 081/113] fix: mark a saved template with decoded values as
 such

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 2499dbc..5a7bbcb 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1154,6 +1154,8 @@ class Collection:
         """Save attributes of client. For types only STATIC save """
         classes: set[CosemClassId] = set()
         objects = self.__get_base_xml_element(root_tag)
+        if is_decode:
+            objects.attrib["decode"] = "1"
         for obj in self.values():
             object_node = ET.SubElement(objects, 'object', attrib={'name': F'{get_name(obj.logical_name)}', 'ln': str(obj.logical_name)})
             if obj.CLASS_ID == classID.ASSOCIATION_LN:
-- 
2.43.0


From 76afd0c587d1d521a4134ba13b20501446e46237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:30 +0000
Subject: [PATCH 082/113] fix: save every element of a structure or array,
 empty ones too

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 5a7bbcb..534f137 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1188,7 +1188,7 @@ class Collection:
                                     while stack:
                                         node, name, value_it = stack[-1]
                                         value = next(value_it, None)
-                                        if value:
+                                        if value is not None:
                                             if not isinstance(name, str):
                                                 name = next(name).NAME
                                             if isinstance(value, cdt.Array):
@@ -1932,7 +1932,7 @@ def to_xml4(collections: list[Collection],
                             while stack:
                                 node, name, value_it = stack[-1]
                                 value = next(value_it, None)
-                                if value:
+                                if value is not None:
                                     if not isinstance(name, str):
                                         name = next(name).NAME
                                     if isinstance(value, cdt.Array):
-- 
2.43.0


From c2ba91e6d2a16747db2cd5bf7e159d8e7191abf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:30 +0000
Subject: [PATCH 083/113] fix: read the verified mark of a template where it is
 written

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 534f137..9029dca 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -2033,7 +2033,7 @@ def from_xml4(filename: str) -> tuple[list[Collection], UsedAttributes, bool]:
                         logger.error(F'Object {new_object} attr:{index} do not fill: {e}')
         case _ as error:
             raise exc.VersionError(error, additional='Xml')
-    return cols, used, bool(int(objects.findtext("verified", default="0")))
+    return cols, used, bool(int(objects.attrib.get("verified", "0")))
 
 
 if config is not None:
-- 
2.43.0


From c8f1fe8ffba726e4486ac0d4576da7c4c58f252c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:30 +0000
Subject: [PATCH 084/113] fix: save values writable by the association given,
 skip those not set

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 9029dca..1143822 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1237,7 +1237,9 @@ class Collection:
                     """skip ln"""
                 elif obj.get_attr_element(i).classifier == ic.Classifier.DYNAMIC:
                     """skip DYNAMIC attributes"""
-                elif not col.is_writable(obj.logical_name, i, 3):
+                elif attr is None:
+                    """skip not set"""
+                elif not col.is_writable(obj.logical_name, i, association_id):
                     """skip not writable"""
                 elif col.get_object(obj.logical_name).get_attr(i) == attr:
                     """skip not changed attr value"""
-- 
2.43.0


From 2b13f20e7a2ec393238972154b5224f3b6cf3594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:08 +0000
Subject: [PATCH 085/113] fix: set up the selective access of an association's
 objects list

---
 .../cosem_interface_classes/association_ln/ver0.py            | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py b/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
index 5db3efd..1c2d2ac 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
@@ -340,7 +340,7 @@ class AssociationLN(ic.COSEMInterfaceClasses):
 
     def __set_to_collection(self):
         """add object to collection if it absense"""
-        self.object_list.selective_access = SelectiveAccessDescriptor()
+        self.object_list.selective_access = SelectiveAccessDescriptor(AccessSelector(1), ut.Data(ut.Null()))
         for obj_list_el in self.object_list:
             obj_list_el: ObjectListElement
             self.collection.add_if_missing(
@@ -409,7 +409,7 @@ class AssociationLN(ic.COSEMInterfaceClasses):
         """ with selection for object_list. TODO: Copypast ProfileGeneric"""
         descriptor: ut.CosemAttributeDescriptor = super(AssociationLN, self).get_attr_descriptor(value)
         if value == 2 and with_selection:
-            return CosemAttributeDescriptorWithSelection((descriptor, self.object_list.selective_access))
+            return CosemAttributeDescriptorWithSelection(descriptor, self.object_list.selective_access)
         else:
             return descriptor
 
-- 
2.43.0


From 8137477d74c16b1f1cad43d4eb63e7956245f549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:27 +0000
Subject: [PATCH 086/113] fix: read a unit by the text it is shown with

---
 src/DLMS_SPODES/types/common_data_types.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 390de2e..bde8ded 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -2303,6 +2303,13 @@ class Unit(Enum, elements=tuple(range(1, 256))):
                 else:
                     raise ValueError(F"unsupport scaler preset: {other} in Unit")
 
+    def from_str(self, value: str) -> bytes:
+        """ the name with the prefix of a castom scaler, as it is shown, is read too """
+        for contents, scaler in self.SCALERS.items():
+            if scaler != 0 and value == F"{self.SCALER_NAME.get(scaler, '')}{self.ELEMENTS[contents]}":
+                return contents
+        return super(Unit, self).from_str(value)
+
     def get_scaler(self) -> int:
         return self.SCALERS[self.contents]
 
-- 
2.43.0


From c1eb6f91594e31232a96701ba0ba89a97ea793b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:41 +0000
Subject: [PATCH 087/113] fix: take the nearest count of a scaled decimal value

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index bde8ded..13f29b1 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -455,7 +455,7 @@ class Digital(ABC):
     def from_int(self, value: int | float) -> bytes:
         try:
             match self.SCALER_UNIT:
-                case ScalUnitType(): value *= 10**(-self.SCALER_UNIT.scaler.decode()+self.SCALER_UNIT.unit.get_scaler())
+                case ScalUnitType(): value = round(value * 10**(-self.SCALER_UNIT.scaler.decode()+self.SCALER_UNIT.unit.get_scaler()))
                 case None:           """ no scaler """
                 case _ as error:     raise ValueError(F'Unknown scaler_unit: {error}')
             return int(value).to_bytes(self.LENGTH, 'big', signed=self.SIGNED)
-- 
2.43.0


From f29ed51e527c7b49c147cff97b605bff6b6ec00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:28 +0000
Subject: [PATCH 088/113] fix: daylight saving active is bit 7 of the clock
 status

---
 src/DLMS_SPODES/cosem_interface_classes/clock.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/clock.py b/src/DLMS_SPODES/cosem_interface_classes/clock.py
index 1172836..b8da858 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/clock.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/clock.py
@@ -18,7 +18,7 @@ class ClockStatus(cdt.Unsigned):
             ret += ' different clock base'
         if bool(value & 0b1000):
             ret += ' invalid clock status'
-        if bool(value & 0b1000000):
+        if bool(value & 0b10000000):
             ret += ' daylight saving active'
         if ret == '':
             ret = 'empty'
-- 
2.43.0


From 02fee4a2327aac0b9bf69c4fbf1b5a6c68aabaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:28 +0000
Subject: [PATCH 089/113] fix: create the default entry selection of a profile
 buffer

---
 src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py b/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
index 938eab2..21313d7 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
@@ -231,7 +231,7 @@ class ProfileGeneric(ic.COSEMInterfaceClasses):
                         ut.SequenceElement('access_selection', SelectiveAccessDescriptor))
 
         self.attr_descriptor_with_selection = CosemAttributeDescriptorWithSelection
-        self.buffer.selective_access = SelectiveAccessDescriptor()
+        self.buffer.selective_access = SelectiveAccessDescriptor(AccessSelector(), EntryDescriptor())
 
     def get_capture_object_names(self) -> list[str]:
         """ return all capture object names from collection """
-- 
2.43.0


From a0c2b7fae89f225cd882ccc0e363834cb4324c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:28 +0000
Subject: [PATCH 090/113] fix: refuse a sort object of another class

---
 src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py b/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
index 21313d7..39dd6cb 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
@@ -195,7 +195,7 @@ class ProfileGeneric(ic.COSEMInterfaceClasses):
         if sort_obj.CLASS_ID.contents == self.sort_object.class_id.contents:
             value_type: Type[cdt.CommonDataType] = sort_obj.get_attr_data_type(int(self.sort_object.attribute_index))
         else:
-            exc.NoObject(F"got {self.sort_object.class_id=}, expected {sort_obj.CLASS_ID=} from collection")
+            raise exc.NoObject(F"got {self.sort_object.class_id=}, expected {sort_obj.CLASS_ID=} from collection")
 
         class RangeDescriptor(cdt.Structure):
             # cb_preset = TODO: make check 'selected_values' from self.capture_objects or
-- 
2.43.0


From 4fc5816f9fee3a9f07e9bf62827fb29df64fcbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:19 +0000
Subject: [PATCH 091/113] fix: keep only the channel when the interface is set

---
 src/DLMS_SPODES/cosem_interface_classes/implementations/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/implementations/data.py b/src/DLMS_SPODES/cosem_interface_classes/implementations/data.py
index 3403967..210bd10 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/implementations/data.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/implementations/data.py
@@ -118,7 +118,7 @@ class ChannelNumberValue(cdt.Unsigned):
 
     @interface.setter
     def interface(self, value: enu.Interface):
-        self.set((int(self) & 0b0001_1111) | (value << 3))
+        self.set((int(self) & 0b0000_0111) | (value << 3))
 
     def get_report(self, with_unit: bool = True) -> str:
         return F"Номер канала связи: {self.channel.name}, Тип интерфейса: {self.interface.name}"
-- 
2.43.0


From f02d57fbf07e0c8c988ff05eca03d1720e5b1e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:19 +0000
Subject: [PATCH 092/113] fix: information fields of HDLC are 128 octets by
 default

---
 .../cosem_interface_classes/iec_hdlc_setup/ver1.py            | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/iec_hdlc_setup/ver1.py b/src/DLMS_SPODES/cosem_interface_classes/iec_hdlc_setup/ver1.py
index e16cf1c..a6683f5 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/iec_hdlc_setup/ver1.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/iec_hdlc_setup/ver1.py
@@ -10,8 +10,8 @@ class IECHDLCSetup(ic.COSEMInterfaceClasses):
     A_ELEMENTS = (ic.ICAElement("comm_speed", CommSpeed, 0, 9, 5),
                   ic.ICAElement("windows_size_transmit", cdt.Unsigned, 1, 7, 1),
                   ic.ICAElement("windows_size_receive", cdt.Unsigned, 1, 7, 1),
-                  ic.ICAElement("max_info_field_length_transmit", cdt.LongUnsigned, 128, 32, 2030),
-                  ic.ICAElement("max_info_field_length_receive", cdt.LongUnsigned, 128, 32, 2030),
+                  ic.ICAElement("max_info_field_length_transmit", cdt.LongUnsigned, 32, 2030, 128),
+                  ic.ICAElement("max_info_field_length_receive", cdt.LongUnsigned, 32, 2030, 128),
                   ic.ICAElement("inter_octet_time_out", cdt.LongUnsigned, 20, 6000, 25),
                   ic.ICAElement("inactivity_time_out", cdt.LongUnsigned, 0, default=120),
                   ic.ICAElement("device_address", cdt.LongUnsigned, 0x0001, 0x3ffd, default=0x10))  # TODO: not according by BlueBook: need default, minimum is other
-- 
2.43.0


From 1644719ed2ff2f11d6e53453de01125d8559cdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:58 +0000
Subject: [PATCH 093/113] fix: report values of different types of a demand
 register

---
 src/DLMS_SPODES/cosem_interface_classes/demand_register/ver0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/demand_register/ver0.py b/src/DLMS_SPODES/cosem_interface_classes/demand_register/ver0.py
index 0dbb9c5..f20e4b6 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/demand_register/ver0.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/demand_register/ver0.py
@@ -67,7 +67,7 @@ class DemandRegister(ic.COSEMInterfaceClasses):
         if self.current_average_value is not None and self.last_average_value is not None and self.current_average_value.TAG != self.last_average_value.TAG:
             self.clear_attr(attr_index)
             raise ValueError(F"got {self.get_attr_element(attr_index)} with: {attr_value=}, expected "
-                             F"{cdt.get_common_data_type_from(self.current_average_value.TAG if attr_index == 3 else self.last_average_value.TAG).NAME}")
+                             F"{cdt.get_common_data_type_from(self.current_average_value.TAG if attr_index == 3 else self.last_average_value.TAG).TAG}")
         match attr_value:
             case cdt.Array() | cdt.CompactArray() | cdt.Structure(): self.set_attr(4, cdt.ScalUnitType(b'\x02\x02\x0f\x00\x16\xff'))
             case cdt.Digital() | cdt.Float():                        attr_value.SCALER_UNIT = self.scaler_unit
-- 
2.43.0


From df33041e4a61d2e0b5ab9f016dda33479bf21950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:58 +0000
Subject: [PATCH 094/113] fix: keep the thresholds read before the monitored
 value

---
 .../cosem_interface_classes/register_monitor.py            | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/register_monitor.py b/src/DLMS_SPODES/cosem_interface_classes/register_monitor.py
index 2a6a800..f5f87ec 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/register_monitor.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/register_monitor.py
@@ -1,11 +1,10 @@
 from .__class_init__ import *
-from ..types import choices
 from ..types.implementations import structs
 threshold_scaler_unit = cdt.ScalUnitType(b'\x02\x02\x0f\x00\x16\x07')
 
 
 class Thresholds(cdt.Array):
-    TYPE = choices.simple_dt
+    """ thresholds of the type of the monitored value """
 
 
 class ActionSet(cdt.Structure):
@@ -46,4 +45,6 @@ class RegisterMonitor(ic.COSEMInterfaceClasses):
         return self.get_attr(4)
 
     def __set_threshold_type(self):
-        self.thresholds.set_type(self.collection.get_object(self.monitored_value.logical_name).get_attr(int(self.monitored_value.attribute_index)).__class__)
+        value = self.collection.get_object(self.monitored_value.logical_name).get_attr(int(self.monitored_value.attribute_index))
+        if value is not None and self.thresholds.TYPE is not value.__class__:
+            self.thresholds.set_type(value.__class__)
-- 
2.43.0


From 31ca631618f6a6a82bd3c12aadb8114cb19b303f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:58 +0000
Subject: [PATCH 095/113] fix: thresholds of a demand register have its scaler
 and unit

---
 src/DLMS_SPODES/cosem_interface_classes/limiter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/limiter.py b/src/DLMS_SPODES/cosem_interface_classes/limiter.py
index 017835b..13bfdb2 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/limiter.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/limiter.py
@@ -117,7 +117,7 @@ class Limiter(ic.COSEMInterfaceClasses):
                     s_v: cdt.CommonDataTypes = self.get_attr(index)
                     """set value"""
                     s_v.clear()
-                    if self.monitored_value.class_id in (long_unsigneds.ClassIDCDT.REGISTER, long_unsigneds.ClassIDCDT.EXT_REGISTER):
+                    if self.monitored_value.class_id in (long_unsigneds.ClassIDCDT.REGISTER, long_unsigneds.ClassIDCDT.EXT_REGISTER, long_unsigneds.ClassIDCDT.DEMAND_REGISTER):
                         s_v.SCALER_UNIT = m_o.scaler_unit
             else:
                 raise exc.EmptyObj(F"monitored_value: {m_o} hasn't value")
-- 
2.43.0


From a84d40e04f8f3fc78f14f8346ebfb86ab015a987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:48 +0000
Subject: [PATCH 096/113] fix: a season that has not begun is not in force

---
 src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py | 2 +-
 src/DLMS_SPODES/types/common_data_types.py                   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py b/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py
index 379c1fb..75d3d3b 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py
@@ -200,7 +200,7 @@ class ActivityCalendar(ic.COSEMInterfaceClasses):
         for season in self.season_profile_active:
             season: Season
             left_point = season.season_start.get_left_nearest_datetime(server_time)
-            if active_season[1] < left_point:
+            if left_point is not None and active_season[1] < left_point:
                 active_season = season, left_point
         if active_season[0] is None:
             raise AttributeError('Season Not found in Activity calendar object')
diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 13f29b1..34959f5 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -2145,10 +2145,10 @@ class DateTime(__DateTime, __Date, __Time, SimpleDataType):
         """ search and return datetime in left from point """
         l_point: datetime.datetime = self.get_left_nearest_date(point)
         """ time in left from point """
-        is_this_day: bool = l_point.date() == point.date()
-        """ flag of points equaling """
         if l_point is None:
             return None
+        is_this_day: bool = l_point.date() == point.date()
+        """ flag of points equaling """
         for hour in range(point.hour if is_this_day else 23, -1, -1) if self.hour is None else (self.hour,):
             l_point = l_point.replace(hour=hour)
             for minute in range(point.minute if is_this_day and l_point.hour == point.hour else 59, -1, -1) if self.minute is None else (self.minute,):
-- 
2.43.0


From ab9dbbe7ee93c5ac18bd3512dc5351c8117a9d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:48 +0000
Subject: [PATCH 097/113] fix: an action at midnight is in force

---
 src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py b/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py
index 75d3d3b..0bb0976 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py
@@ -241,7 +241,7 @@ class ActivityCalendar(ic.COSEMInterfaceClasses):
         for day_profile_action in day.day_schedule:
             day_profile_action: DayProfileAction
             left_point = day_profile_action.start_time.get_left_nearest_time(server_time.time())
-            if left_point is not None and active[1] < left_point:
+            if left_point is not None and (active[0] is None or active[1] < left_point):
                 active = day_profile_action, left_point
         if active[0] is None:
             raise AttributeError('Action Not found in Activity calendar object')
-- 
2.43.0


From ace5b78d21972e6c95a562e0c2da0f035cf1e410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:48 +0000
Subject: [PATCH 098/113] fix: special days repeat where their date is not
 specified

---
 .../cosem_interface_classes/special_days_table.py         | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/special_days_table.py b/src/DLMS_SPODES/cosem_interface_classes/special_days_table.py
index aa72f74..3a9a8ac 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/special_days_table.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/special_days_table.py
@@ -97,7 +97,13 @@ class SpecialDaysTable(ic.COSEMInterfaceClasses):
         else:
             current_date: datetime.date = server_time.date()
             for spec_day_entry in self.entries:
-                if spec_day_entry.specialday_date.decode() == current_date:
+                date = spec_day_entry.specialday_date
+                if (
+                    date.year in (None, current_date.year)
+                    and date.month in (None, current_date.month)
+                    and date.day in (None, current_date.day)
+                    and date.weekday in (None, current_date.isoweekday())
+                ):
                     return spec_day_entry.day_id
             else:
                 return None
-- 
2.43.0


From 64a13f4f2738347adec5973ba1b8808269ad7d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:48 +0000
Subject: [PATCH 099/113] fix: nearest date of a fixed month or day

---
 src/DLMS_SPODES/types/common_data_types.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 34959f5..b6074ea 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -2121,24 +2121,23 @@ class DateTime(__DateTime, __Date, __Time, SimpleDataType):
         """ search and return date(datetime format) in left from point """
         l_point: datetime.datetime = self.decode()
         """ time in left from point """
-        months = range(point.month, 0, -1) if self.month is None else (self.month,)
-        """ months sequence from 12 to 1 with start from current month or self month """
-        days = range(point.day, 0, -1) if self.day is None else (self.day,)
-        """ days sequence from 31 to 1 with start from current day or self day """
+        months = range(12, 0, -1) if self.month is None else (self.month,)
+        """ months sequence from 12 to 1 or self month """
+        days = range(31, 0, -1) if self.day is None else (self.day,)
+        """ days sequence from 31 to 1 or self day """
         for year in range(point.year, datetime.MINYEAR, -1) if self.year is None else (self.year, ):
-            l_point = l_point.replace(year=year)
             for month in months:
-                l_point = l_point.replace(month=month)
                 for day in days:
-                    l_point = l_point.replace(day=day)
+                    try:
+                        l_point = l_point.replace(year=year, month=month, day=day)
+                    except ValueError:  # no such day in month
+                        continue
                     if l_point > point:
                         continue
                     elif self.weekday is not None and self.weekday != (l_point.weekday() + 1):
                         continue
                     else:
                         return l_point
-                days = range(31, 0, -1) if self.day is None else point.day,
-            months = range(12, 0, -1) if self.month is None else point.month,
         return None
 
     def get_left_nearest_datetime(self, point: datetime.datetime) -> datetime.datetime | None:
-- 
2.43.0


From 094943199afad5113d453044990000b354c13027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:56 +0000
Subject: [PATCH 100/113] fix: report flags above the eighth bit

---
 src/DLMS_SPODES/cosem_interface_classes/events.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/events.py b/src/DLMS_SPODES/cosem_interface_classes/events.py
index 45f3498..97dcc29 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/events.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/events.py
@@ -9,7 +9,7 @@ match get_current_language():
 class FlagEvents(dict):
     """ special class for flag events indication """
     def get_report(self, value: int) -> str:
-        return ". ".join(filter(lambda it_: it_ is not None, map(lambda it: self.get(2 ** it, F"unknown bit: {it}"), filter(lambda it: value & 2 ** it, range(8)))))+F"({value})"
+        return ". ".join(filter(lambda it_: it_ is not None, map(lambda it: self.get(2 ** it, F"unknown bit: {it}"), filter(lambda it: value & 2 ** it, range(value.bit_length())))))+F"({value})"
 
 
 class Events(dict):
-- 
2.43.0


From 37fbd1e0217b8ecb530fa8e34c6fa14cfa506666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:56 +0000
Subject: [PATCH 101/113] fix: report what follows an empty element

---
 src/DLMS_SPODES/cosem_interface_classes/reports.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/reports.py b/src/DLMS_SPODES/cosem_interface_classes/reports.py
index e659574..0aec4f2 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/reports.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/reports.py
@@ -32,7 +32,7 @@ def get_obj_report(
                 name, value_it = stack[-1]
                 indent = F"{' '*(len(stack) + 1)}"
                 value = next(value_it, None)
-                if value:
+                if value is not None:
                     if not isinstance(name, str):
                         name = next(name).NAME
                     if isinstance(value, cdt.Array):
-- 
2.43.0


From 3d467b3634b5778fc50e4f51cece16cf3e183483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:56 +0000
Subject: [PATCH 102/113] fix: English names that the table of names uses

---
 .../Values/EN/relation_to_obis_names.py       | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/DLMS_SPODES/Values/EN/relation_to_obis_names.py b/src/DLMS_SPODES/Values/EN/relation_to_obis_names.py
index 73169fb..a393256 100644
--- a/src/DLMS_SPODES/Values/EN/relation_to_obis_names.py
+++ b/src/DLMS_SPODES/Values/EN/relation_to_obis_names.py
@@ -89,6 +89,25 @@ RU_EVENTS_FOR_EXCEEDING_THE_REACTIVE_POWER = "Events for exceeding the reactive
 RU_CHANNEL_NUMBER_INTERFACE = "channel number (interface)"
 COMMUNICATION_ADDRESS = "Communication address"
 LOAD_PARAMETERS_PROFILE = "Load parameters profile"
+# Parameter changes, calibration and access
+NUMBER_OF_CONFIGURATION_PROGRAM_CHANGES = "Number of configuration program changes"
+DATE_A_OF_LAST_CONFIGURATION_PROGRAM_CHANGE = "Date of last configuration program change"
+DATE_A_OF_LAST_TIME_SWITCH_PROGRAM_CHANGE = "Date of last time switch program change"
+DATE_A_OF_LAST_RIPPLE_CONTROL_RECEIVER_PROGRAM_CHANGE = "Date of last ripple control receiver program change"
+STATUS_OF_SECURITY_SWITCHES = "Status of security switches"
+DATE_A_OF_LAST_CALIBRATION = "Date of last calibration"
+DATE_A_OF_NEXT_CONFIGURATION_PROGRAM_CHANGE = "Date of next configuration program change"
+DATE_A_OF_ACTIVATION_OF_THE_PASSIVE_CALENDAR = "Date of activation of the passive calendar"
+NUMBER_OF_PROTECTED_CONFIGURATION_PROGRAM_CHANGES = "Number of protected configuration program changes"
+DATE_A_OF_LAST_PROTECTED_CONFIGURATION_PROGRAM_CHANGE = "Date of last protected configuration program change"
+DATE_A_CORRECTED_OF_LAST_CLOCK_SYNCHRONIZATION_SETTING = "Date (corrected) of last clock synchronization/setting"
+DATE_OF_LAST_FIRMWARE_ACTIVATION = "Date of last firmware activation"
+# Internal operating status
+INTERNAL_OPERATING_STATUS_GLOBAL = "Internal operating status, global"
+INTERNAL_OPERATING_STATUS_1 = "Power quality status (profile of daily testimony)"
+INTERNAL_OPERATING_STATUS_2 = "Internal operating status 2"
+INTERNAL_OPERATING_STATUS_3 = "Internal operating status 3"
+INTERNAL_OPERATING_STATUS_4 = "Power quality status (power quality log)"
 # 6.2.59 Event counter objects
 RU_RELAY_TRIGGERING_METER_FOR_OPENING = "RU. Relay triggering meter for opening"
 # 6.2.62 Meter tamper event related objects
-- 
2.43.0


From 1e1a5e1af87f7a5568a76d8e827109fae847af5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:05 +0000
Subject: [PATCH 103/113] fix: keep the callback of an attribute it has erased

---
 .../cosem_interface_classes/cosem_interface_class.py         | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
index 1d90a1c..53bc65b 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
@@ -250,7 +250,10 @@ class COSEMInterfaceClasses(ABC):
             self.__attributes[index-1] = new_value
             if cb_func := self._cbs_attr_post_init.get(index, None):
                 cb_func()
-                self._cbs_attr_post_init.pop(index)
+                if self.__attributes[index-1] is not None:
+                    self._cbs_attr_post_init.pop(index)
+                else:
+                    """the callback has erased the value, keep it for the next setting"""
             else:
                 """without callback post init"""
         else:
-- 
2.43.0


From d704dd783e94e0a3f2fc3f9b1538e4cce40760f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:05 +0000
Subject: [PATCH 104/113] fix: show any octets of a string, with a question
 mark for unsupported ones

---
 src/DLMS_SPODES/types/common_data_types.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index b6074ea..8bf1910 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1653,8 +1653,8 @@ class OctetString(_String, SimpleDataType):
         """ decode to cp1251 by default, replace to '?' if unsupported """
         temp = list()
         for i in self.contents:
-            temp.append(i if i > 32 else 63)
-        return bytes(temp).decode(encoding)
+            temp.append(i if i >= 32 else 63)
+        return bytes(temp).decode(encoding, errors="replace").replace("\ufffd", "?")
 
     def __bytes__(self):
         return self.contents
@@ -1671,7 +1671,7 @@ class VisibleString(_String, SimpleDataType):
         return bytes(str(value), 'cp1251')
 
     def __str__(self):
-        return bytes([char if char >= 0x20 else 63 for char in self.contents]).decode(encoding='cp1251')
+        return VisibleString.decode(self)
 
     def __len__(self):
         return len(self.contents)
@@ -1681,7 +1681,7 @@ class VisibleString(_String, SimpleDataType):
         temp = list()
         for i in self.contents:
             temp.append(i if i >= 32 else 63)
-        return bytes(temp).decode(encoding)
+        return bytes(temp).decode(encoding, errors="replace").replace("\ufffd", "?")
 
     def to_str(self) -> str:
         return self.decode()
-- 
2.43.0


From 2b2a9e67160c20e7b4332a31211120d65bc3bb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:05 +0000
Subject: [PATCH 105/113] fix: read the output state of a disconnector from its
 own text

---
 .../cosem_interface_classes/disconnect_control.py        | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/disconnect_control.py b/src/DLMS_SPODES/cosem_interface_classes/disconnect_control.py
index 490460d..7243dfc 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/disconnect_control.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/disconnect_control.py
@@ -37,6 +37,15 @@ class OutputState(cdt.Boolean):
     def __str__(self):
         return get_message("$disconnected$") if self.contents == b'\x00' else get_message("$connected$")
 
+    def from_str(self, value: str) -> bytes:
+        """the text of the state, as it is shown, is read too"""
+        if value == get_message("$disconnected$"):
+            return b'\x00'
+        elif value == get_message("$connected$"):
+            return b'\x01'
+        else:
+            return super(OutputState, self).from_str(value)
+
 
 class DisconnectControl(ic.COSEMInterfaceClasses):
     """DLMS UA 1000-1 Ed. 14 4.5.8 Disconnect control"""
-- 
2.43.0


From 86bceb1063bcbbff24b1a91342462e2e27bc430f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:43 +0000
Subject: [PATCH 106/113] fix: floating-point numbers are the IEEE-754 numbers
 of their value

---
 src/DLMS_SPODES/types/common_data_types.py | 38 +++++++---------------
 1 file changed, 11 insertions(+), 27 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 8bf1910..9d6e0e7 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -599,18 +599,21 @@ class Float(ABC):
             case str():                                                            self.contents = self.from_str(value)
             case int():                                                            self.contents = self.from_float(float(value))
             case float():                                                          self.contents = self.from_float(value)
-            case Float():                                                          self.contents = value.contents
+            case Float() if len(value) == len(self):                               self.contents = value.contents
+            case Float():                                                          self.contents = self.from_float(value.decode())
             case _:                                                                raise ValueError(F'Error create {self.TAG} with value {value}')
 
     def from_str(self, value: str) -> bytes:
         """ Input 1. float: <sign><integer>.<fraction>[e[-+]power] example: 1.0, -0.003, 1e+12, 4.5e-7
          2. hex_float:  <sign>0x<integer>.<fraction>p[+-]<power> example 0x1.e4d00p+15 (62056.0) """
         try:
-            return self.from_float(float(value))
-        except ValueError:
-            return self.from_float(float.fromhex(value))
-        except OverflowError:
-            raise ValueError
+            try:
+                number = float(value)
+            except ValueError:
+                number = float.fromhex(value)
+            return self.from_float(number)
+        except OverflowError as e:
+            raise ValueError(F'{value} is out of range of {self.TAG}: {e}')
 
     @property
     def encoding(self) -> bytes:
@@ -621,30 +624,11 @@ class Float(ABC):
         """ Input float: <sign><integer>.<fraction>[e[-+]power] example: 1.0, -0.003, 1e+12, 4.5e-7 """
         if 'inf' in str(value):
             raise OverflowError(F'Float overflow error')
-        hex_string = value.hex()
-        sign, mantissa_and_exponent = hex_string.split('0x')
-        sign = 1 << (len(self) * 8 - 1) if sign else 0
-        mantissa, exponent = mantissa_and_exponent.split('p')
-        integer, fraction = mantissa.split('.')
-        integer = int(integer, base=16)
-        exponent = (int(exponent) + 2 ** (len(self) - 1) - 1)
-        if exponent >= 2 ** self.exponent_wide:
-            raise OverflowError(F'Exponent overflow error')
-        exponent <<= self.fraction_wide if integer else 0
-        fraction_quartet_amount = ceil(self.fraction_wide / 4)
-        offset = fraction_quartet_amount*4 - self.fraction_wide
-        fraction = int(fraction[:fraction_quartet_amount], base=16) >> offset
-        return (sign + exponent + fraction).to_bytes(len(self), 'big')
+        return pack('>f' if len(self) == 4 else '>d', value)
 
     def decode(self) -> float:
         """  return the build in float type IEEE 60559"""
-        sign = self.contents[0] >> 7
-        exponent = (int.from_bytes(self.contents[:2], 'big') & 0x7fff) >> (15 - self.exponent_wide)
-        fraction = int.from_bytes(self.contents[1:], 'big') & (1 << self.fraction_wide)-1
-        ret = 2 ** (exponent - 2**(self.exponent_wide-1)+1) * (1 + fraction/(1 << self.fraction_wide))
-        if sign:
-            ret *= -1
-        return ret
+        return unpack('>f' if len(self) == 4 else '>d', self.contents)[0]
 
     def validate_from(self, value: str, cursor_position=None) -> tuple[str, int]:
         # adding '0' for available set service symbols
-- 
2.43.0


From a10c43fbb11fedef59d8dc06500bdfaf24f4decd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:43 +0000
Subject: [PATCH 107/113] fix: typed text of a floating-point number is
 validated

---
 src/DLMS_SPODES/types/common_data_types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 9d6e0e7..b3c659e 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -632,9 +632,9 @@ class Float(ABC):
 
     def validate_from(self, value: str, cursor_position=None) -> tuple[str, int]:
         # adding '0' for available set service symbols
-        if value[-1] in '.-+exp':
+        if value and value[-1] in '.-+exp':
             value += '0'
-        return SimpleDataType(self).validate_from(value, cursor_position)
+        return super(Float, self).validate_from(value, cursor_position)
 
     def __str__(self):
         return str(self.decode())
-- 
2.43.0


From 251dfb55efe9f353b25bc94fbb1b20f36341ecc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:24:17 +0000
Subject: [PATCH 108/113] fix: 29 February of an unspecified year is decoded

---
 src/DLMS_SPODES/types/common_data_types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index b3c659e..f0f658a 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -2081,7 +2081,7 @@ class DateTime(__DateTime, __Date, __Time, SimpleDataType):
         year_highbyte, year_lowbyte, month, day_of_month, _, hour, minute, second, hundredths, deviation_highbyte, deviation_lowbyte, _ = self.contents
         year = year_highbyte*256+year_lowbyte
         deviation = int.from_bytes((deviation_highbyte, deviation_lowbyte), 'big', signed=True)
-        return datetime.datetime(year=year if year != 0xffff else datetime.MINYEAR,
+        return datetime.datetime(year=year if year != 0xffff else 4 if (month, day_of_month) == (2, 29) else datetime.MINYEAR,  # 4 is the first leap year
                                  month=month if month not in {0xff, 0xfe, 0xfd} else 1,
                                  day=day_of_month if day_of_month not in {0xff, 0xfe, 0xfd} else 1,
                                  hour=hour if hour != 0xff else 0,
@@ -2190,7 +2190,7 @@ class Date(__DateTime, __Date, SimpleDataType):
     def decode(self) -> datetime.date:
         year_highbyte, year_lowbyte, month, day_of_month, _ = self.contents
         year = year_highbyte*256+year_lowbyte
-        return datetime.date(year=year if year != 0xffff else datetime.MINYEAR,
+        return datetime.date(year=year if year != 0xffff else 4 if (month, day_of_month) == (2, 29) else datetime.MINYEAR,  # 4 is the first leap year
                              month=month if month not in {0xff, 0xfe, 0xfd} else 1,
                              day=day_of_month if day_of_month not in {0xff, 0xfe, 0xfd} else 1)
 
-- 
2.43.0


From af1172894d462e04e5571f017d8b080042f94f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:37:17 +0000
Subject: [PATCH 109/113] fix: a copy of a scaled number keeps its scaler and
 unit

---
 src/DLMS_SPODES/types/common_data_types.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index f0f658a..5b6a1ad 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -452,6 +452,10 @@ class Digital(ABC):
         """ override SimpleDataType for send scaler_unit . use only for check and send contents """
         return self.__class__(value, self.SCALER_UNIT)
 
+    def copy(self) -> Self:
+        """ return copy of object with its scaler and unit """
+        return self._new_instance(self.encoding)
+
     def from_int(self, value: int | float) -> bytes:
         try:
             match self.SCALER_UNIT:
-- 
2.43.0


From 776694596f2abd4ab78e54593f1d7b32077c9ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:37:17 +0000
Subject: [PATCH 110/113] fix: a scaled number has a hash

---
 src/DLMS_SPODES/types/common_data_types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 5b6a1ad..352972e 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -568,7 +568,8 @@ class Digital(ABC):
         return value, cursor_position
 
     def __hash__(self):
-        return self.decode()
+        """ equal encodings have equal hashes, with a scaler or without """
+        return hash(int.from_bytes(self.contents, 'big', signed=self.SIGNED))
 
 
 class Float(ABC):
-- 
2.43.0


From 84ff7fd358c4614fca0e4a22b3efa649b71b6246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:37:17 +0000
Subject: [PATCH 111/113] fix: a value is encoded for an attribute that has one

---
 .../cosem_interface_classes/cosem_interface_class.py           | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
index 53bc65b..9b33af5 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
@@ -233,8 +233,7 @@ class COSEMInterfaceClasses(ABC):
             else:
                 return self.get_attr_element(index).DATA_TYPE(value)
         else:
-            ret = attr.copy()
-            return ret.set(value)
+            return attr.get_copy(value)
 
     def set_attr(self,
                  index: int,
-- 
2.43.0


From 98c3d5c4fd9d6bf8bc43f087b4e87247e92ca4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:43:54 +0000
Subject: [PATCH 112/113] fix: a negotiation parameter cut short is refused

---
 src/DLMS_SPODES/hdlc/negotiation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/DLMS_SPODES/hdlc/negotiation.py b/src/DLMS_SPODES/hdlc/negotiation.py
index e05215e..60c0aab 100644
--- a/src/DLMS_SPODES/hdlc/negotiation.py
+++ b/src/DLMS_SPODES/hdlc/negotiation.py
@@ -30,6 +30,8 @@ class Negotiation(Info):
         """set from UA info"""
         def get_max_information_field(data: memoryview) -> tuple[int, memoryview]:
             data_len = data[0]
+            if len(data) <= data_len:
+                raise ValueError(F"got max information field of {len(data) - 1} octets, expected {data_len}")
             ret = int.from_bytes(data[1:1 + data_len], "big")
             if MIN_MAX_INFO_FIELD_LENGTH <= ret <= MAX_MAX_INFO_FIELD_LENGTH:
                 return ret, memoryview(data[1 + data_len:])
@@ -38,6 +40,8 @@ class Negotiation(Info):
 
         def get_window_size(data: memoryview) -> tuple[int, memoryview]:
             data_len = data[0]
+            if len(data) <= data_len:
+                raise ValueError(F"got window_size of {len(data) - 1} octets, expected {data_len}")
             ret = int.from_bytes(data[1:1 + data_len], "big")
             if MIN_WINDOW_SIZE <= ret <= MAX_WINDOW_SIZE:
                 return ret, memoryview(data[1 + data_len:])
-- 
2.43.0


From 34e52bf71343557a789e4da125c003cbfc75f12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:43:54 +0000
Subject: [PATCH 113/113] fix: a negotiation response is taken over as a whole
 or not at all

---
 .../iec_hdlc_setup/ver1.py                     | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/iec_hdlc_setup/ver1.py b/src/DLMS_SPODES/cosem_interface_classes/iec_hdlc_setup/ver1.py
index a6683f5..4728d4f 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/iec_hdlc_setup/ver1.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/iec_hdlc_setup/ver1.py
@@ -81,16 +81,24 @@ class IECHDLCSetup(ic.COSEMInterfaceClasses):
             info = info.removeprefix(b'\x81\x80')
             length, info = info[0], info[1:]
             if length == len(info):
+                values = {i: self.get_attr_element(i).default for i in (3, 4, 5, 6)}  # parameters without value have default
                 while len(info) != 0:
+                    if len(info) < 2 or len(info) < 2 + info[1]:
+                        raise ValueError(F'HDLC negotiation parameter is cut short: {info.hex(" ")}')
                     tag, value_length, info = info[:1], info[1], info[2:]
                     value, info = info[:value_length], info[value_length:]
                     match tag:
-                        case b'\x05': self.set_attr(5, cdt.LongUnsigned(int.from_bytes(value, 'big')))
-                                      # self.max_info_field_length_transmit.contents = (bytes(2)+value)[-2:]
-                        case b'\x06': self.set_attr(6, cdt.LongUnsigned(int.from_bytes(value, 'big')))
-                        case b'\x07': self.set_attr(3, cdt.Unsigned(int.from_bytes(value, 'big')))
-                        case b'\x08': self.set_attr(4, cdt.Unsigned(int.from_bytes(value, 'big')))
+                        case b'\x05': values[5] = int.from_bytes(value, 'big')
+                        case b'\x06': values[6] = int.from_bytes(value, 'big')
+                        case b'\x07': values[3] = int.from_bytes(value, 'big')
+                        case b'\x08': values[4] = int.from_bytes(value, 'big')
                         case _:       raise ValueError(F'Invalid UA response. Got {tag.hex(" ")} from supported 05, 06, 07, 08')
+                for i, number in values.items():
+                    element = self.get_attr_element(i)
+                    if not element.min <= number <= element.max:
+                        raise ValueError(F'got {element.NAME}={number}, expected {element.min}..{element.max}')
+                for i, number in values.items():
+                    self.set_attr(i, number)
             else:
                 raise ValueError(F'HDLS negotiation length wrong, must be {length}, got {len(info)}')
         elif len(info) == 0:
-- 
2.43.0

