From bfda899d51e57b6c03f1a6590f7b03d8b4be5732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:44 +0000
Subject: [PATCH 01/39] fix: store doubles of big-endian files in big-endian
 order

---
 src/avb/ioctx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avb/ioctx.py b/src/avb/ioctx.py
index aa44c32..35fac2d 100644
--- a/src/avb/ioctx.py
+++ b/src/avb/ioctx.py
@@ -450,11 +450,11 @@ class AVBIOContext(object):
 
     @staticmethod
     def read_double_be(f):
-        return unpack(b"<d", f.read(8))[0]
+        return unpack(b">d", f.read(8))[0]
 
     @staticmethod
     def write_double_be(f, value):
-        f.write(pack(b"<d", value))
+        f.write(pack(b">d", value))
 
     @staticmethod
     def read_fourcc_be(f):
-- 
2.43.0


From 81339cc8d626ed14106b1b962b3c30c02a4f2d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:44 +0000
Subject: [PATCH 02/39] fix: encode edit rates exactly

5994 and 599.4 were stored as 59.94, and rates such as 9951.971 lost
their last digit because the scaled mantissa was truncated.
---
 src/avb/ioctx.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/avb/ioctx.py b/src/avb/ioctx.py
index 35fac2d..43ec767 100644
--- a/src/avb/ioctx.py
+++ b/src/avb/ioctx.py
@@ -142,11 +142,12 @@ class AVBIOContext(object):
             exponent -= 1
 
         # remap values pretty values to match seen files
-        if value in exp10_pretty:
-            self.write_s32(f, exp10_pretty[value][0])
-            self.write_s16(f, exp10_pretty[value][1])
+        mantissa = int(round(value))
+        if exponent == -2 and mantissa in exp10_pretty:
+            self.write_s32(f, exp10_pretty[mantissa][0])
+            self.write_s16(f, exp10_pretty[mantissa][1])
         else:
-            self.write_s32(f, int(value))
+            self.write_s32(f, mantissa)
             self.write_s16(f, exponent)
 
 
-- 
2.43.0


From 0ebd20fb61b77bf496f188e661f9d814258b84d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:44 +0000
Subject: [PATCH 03/39] fix: reject strings of 65535 encoded bytes

The size 65535 marks a empty string, so such a string was read back empty
and its data as the following fields.
---
 src/avb/ioctx.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/avb/ioctx.py b/src/avb/ioctx.py
index 43ec767..8227bf5 100644
--- a/src/avb/ioctx.py
+++ b/src/avb/ioctx.py
@@ -171,6 +171,9 @@ class AVBIOContext(object):
             data = b'\x00\x00' + data
 
         size = len(data)
+        if size >= 65535:
+            # 65535 is read back as a empty string
+            raise ValueError("string too long: %d bytes" % size)
         self.write_u16(f, size)
         f.write(data)
 
-- 
2.43.0


From 97abc43466aec52e248396989af913ffab1e49bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:44 +0000
Subject: [PATCH 04/39] fix: keep timestamps in the repeated hour at the end of
 summer time

---
 src/avb/ioctx.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/avb/ioctx.py b/src/avb/ioctx.py
index 8227bf5..e92a0ee 100644
--- a/src/avb/ioctx.py
+++ b/src/avb/ioctx.py
@@ -92,6 +92,9 @@ class AVBIOContext(object):
 
     @staticmethod
     def datetime_to_timestamp(d):
+        if hasattr(d, 'timestamp'):
+            # unlike timetuple this respects d.fold
+            return int(d.replace(microsecond=0).timestamp())
         return int(time.mktime(d.timetuple()))
 
     @staticmethod
-- 
2.43.0


From 54ccb0d053305ba2dbb30490616b238fbc5dc948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:58 +0000
Subject: [PATCH 05/39] fix: write MPGADescriptor.sub_frame_alignment unsigned,
 as it is read

---
 src/avb/essence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avb/essence.py b/src/avb/essence.py
index d42b02a..c9bbf49 100644
--- a/src/avb/essence.py
+++ b/src/avb/essence.py
@@ -506,7 +506,7 @@ class MPGADescriptor(MediaFileDescriptor):
             ctx.write_u8(f, 0x01)
             ctx.write_u8(f, 0x01)
             ctx.write_u8(f, 77)
-            ctx.write_s64(f, self.sub_frame_alignment)
+            ctx.write_u64(f, self.sub_frame_alignment)
 
         if hasattr(self, 'origin'):
             ctx.write_u8(f, 0x01)
-- 
2.43.0


From 80034a08a096fef2354baf3a2b8fccacc7d6c0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:16 +0000
Subject: [PATCH 06/39] fix: write a BinRef that has no name_utf8

The block is optional when reading, such a object could not be saved again.
---
 src/avb/misc.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/avb/misc.py b/src/avb/misc.py
index 3c35072..6723677 100644
--- a/src/avb/misc.py
+++ b/src/avb/misc.py
@@ -821,10 +821,11 @@ class BinRef(core.AVBObject):
         ctx.write_s32(f, self.uid_low)
         ctx.write_string(f, self.name)
 
-        ctx.write_u8(f, 0x01)
-        ctx.write_u8(f, 0x01)
-        ctx.write_u8(f, 76)
-        ctx.write_string(f, self.name_utf8, 'utf-8')
+        if hasattr(self, 'name_utf8'):
+            ctx.write_u8(f, 0x01)
+            ctx.write_u8(f, 0x01)
+            ctx.write_u8(f, 76)
+            ctx.write_string(f, self.name_utf8, 'utf-8')
 
         ctx.write_u8(f, 0x03)
 
-- 
2.43.0


From 6c8f70d2a35c55643d1d0497a69580af001438d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:22 +0000
Subject: [PATCH 07/39] fix: write the mob id of an AudioSuitePluginEffect
 unsigned

Material numbers with the top bit set raised struct.error.
---
 src/avb/trackgroups.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avb/trackgroups.py b/src/avb/trackgroups.py
index 8a8b8d9..32b63af 100644
--- a/src/avb/trackgroups.py
+++ b/src/avb/trackgroups.py
@@ -572,9 +572,9 @@ class AudioSuitePluginEffect(TrackEffect):
             mob_lo = self.mob_id.material.time_low
             mob_hi = self.mob_id.material.time_mid + (self.mob_id.material.time_hi_version << 16)
             ctx.write_u8(f, 71)
-            ctx.write_s32(f, mob_lo)
+            ctx.write_u32(f, mob_lo)
             ctx.write_u8(f, 71)
-            ctx.write_s32(f, mob_hi)
+            ctx.write_u32(f, mob_hi)
 
         # NOTE: out of order to match seen files
         if hasattr(self, 'mob_id'):
-- 
2.43.0


From 9741072dcbef3338f79e6fe6f03dddf42cd6935c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:22 +0000
Subject: [PATCH 08/39] fix: end a TrackGroup record with its end tag

A plain TrackGroup was written without one and then could not be read back:
looking for the next extension tag ran off the end of the record.
---
 src/avb/trackgroups.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/avb/trackgroups.py b/src/avb/trackgroups.py
index 32b63af..fdf985d 100644
--- a/src/avb/trackgroups.py
+++ b/src/avb/trackgroups.py
@@ -166,6 +166,9 @@ class TrackGroup(Component):
             else:
                 raise ValueError("%s: unknown ext tag 0x%02X %d" % (str(self.class_id), tag,tag))
 
+        if self.class_id[:] == b'TRKG':
+            ctx.read_assert_tag(f, 0x03)
+
     def write(self, f):
         super(TrackGroup, self).write(f)
         ctx = self.root.octx
@@ -225,6 +228,9 @@ class TrackGroup(Component):
                 else:
                     ctx.write_s16(f, 0)
 
+        if self.class_id[:] == b'TRKG':
+            ctx.write_u8(f, 0x03)
+
     def dependant_mobs(self):
         """
             Yields all mobs that this mob is dependant on in depth first order.
-- 
2.43.0


From b21adb4f1bf27752ba66704cd75433b039c44955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:22 +0000
Subject: [PATCH 09/39] fix: read the number of bin format descriptors
 unsigned, as it is written

---
 src/avb/bin.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/avb/bin.py b/src/avb/bin.py
index 5de8841..a4f7475 100644
--- a/src/avb/bin.py
+++ b/src/avb/bin.py
@@ -109,8 +109,7 @@ class BinViewSetting(Setting):
         for tag in ctx.iter_ext(f):
             if tag == 0x01:
                 ctx.read_assert_tag(f, 69)
-                num_vcid_free_columns = ctx.read_s16(f)
-                assert num_vcid_free_columns >= 0
+                num_vcid_free_columns = ctx.read_u16(f)
                 self.format_descriptors = []
                 for i in range(num_vcid_free_columns):
                     d = {}
-- 
2.43.0


From 08e24bd42742d771534b7778872587cd4b743f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:11 +0000
Subject: [PATCH 10/39] fix: read edit rates back as the value that was written

---
 src/avb/_ext_core.cpp | 4 ++++
 src/avb/ioctx.py      | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/avb/_ext_core.cpp b/src/avb/_ext_core.cpp
index d6c4fe5..36e9edb 100644
--- a/src/avb/_ext_core.cpp
+++ b/src/avb/_ext_core.cpp
@@ -226,6 +226,10 @@ static inline double read_exp10_encoded_float(Buffer *f)
     int32_t mantissa = (int32_t)read_u32le(f);
     int16_t exp10 = (int16_t)read_u16le(f);
 
+    // dividing by a power of ten is exact where multiplying by its inverse is not
+    if (exp10 < 0)
+        return mantissa / pow(10.0, -(int)exp10);
+
     return mantissa * pow(10.0, (int)exp10);
 }
 
diff --git a/src/avb/ioctx.py b/src/avb/ioctx.py
index e92a0ee..dfb1f52 100644
--- a/src/avb/ioctx.py
+++ b/src/avb/ioctx.py
@@ -132,6 +132,10 @@ class AVBIOContext(object):
         mantissa = self.read_s32(f)
         exp10 = self.read_s16(f)
 
+        if exp10 < 0:
+            # dividing by a power of ten is exact where multiplying by its inverse is not
+            return mantissa / pow(10, -exp10)
+
         return float(mantissa) * pow(10, exp10)
 
     def write_exp10_encoded_float(self, f, value):
-- 
2.43.0


From 3073ee385c584e1125ef41dfa7cea1a909bf47f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:49 +0000
Subject: [PATCH 11/39] fix: keep the last digit of edit rates whose mantissa
 is 0x7FFFFFFF

---
 src/avb/ioctx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avb/ioctx.py b/src/avb/ioctx.py
index dfb1f52..a7e6b9e 100644
--- a/src/avb/ioctx.py
+++ b/src/avb/ioctx.py
@@ -141,7 +141,7 @@ class AVBIOContext(object):
     def write_exp10_encoded_float(self, f, value):
         exponent = 0
         while int(value) != value:
-            if abs(value * 10) >= 0x7FFFFFFF:
+            if abs(round(value * 10)) > 0x7FFFFFFF:
                 break
             if exponent <= -6:
                 break
-- 
2.43.0


From b81aee63a430acb50c878fddba06c6e0b50c3d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:38 +0000
Subject: [PATCH 12/39] fix: look up the last of several keyframes at the same
 time

---
 src/avb/components.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/avb/components.py b/src/avb/components.py
index a393c1b..d6afa31 100644
--- a/src/avb/components.py
+++ b/src/avb/components.py
@@ -697,12 +697,10 @@ class ParamClip(Clip):
 
             m = (start + end) // 2
             p = self.control_points[m]
-            if p.time < t:
+            if p.time <= t:
                 start = m + 1
-            elif p.time > t:
-                end = m - 1
             else:
-                return m
+                end = m - 1
 
 
     def value_at(self, time):
-- 
2.43.0


From cfc511b6f9fc48dbe7c5cb42ab7f117e3663c004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:00 +0000
Subject: [PATCH 13/39] fix: list the dependant mobs of mobs that refer to each
 other in a cycle

---
 src/avb/trackgroups.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/avb/trackgroups.py b/src/avb/trackgroups.py
index fdf985d..d8a0d95 100644
--- a/src/avb/trackgroups.py
+++ b/src/avb/trackgroups.py
@@ -237,20 +237,24 @@ class TrackGroup(Component):
         """
 
         visited = set()
+        expanded = set()
         stack = [self]
 
         while stack:
             mob = stack[-1]
             children_processed = True
 
-            for obj in walk_references(mob):
-                if isinstance(obj, SourceClip):
-                    ref_mob = obj.mob
-                    if not ref_mob:
-                        continue
-                    if ref_mob.mob_id not in visited:
-                        stack.append(ref_mob)
-                        children_processed = False
+            # mobs can refer to themselves or to each other in a cycle
+            if mob.mob_id not in expanded:
+                expanded.add(mob.mob_id)
+                for obj in walk_references(mob):
+                    if isinstance(obj, SourceClip):
+                        ref_mob = obj.mob
+                        if not ref_mob:
+                            continue
+                        if ref_mob.mob_id not in expanded:
+                            stack.append(ref_mob)
+                            children_processed = False
 
             if children_processed:
                 stack.pop(-1)
-- 
2.43.0


From 7baaedbd7e3a3507bbd9b657f0e591524e3f46c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:25 +0000
Subject: [PATCH 14/39] fix: make clear, sort and reverse of reference lists
 take effect

---
 src/avb/core.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/avb/core.py b/src/avb/core.py
index a2f3fe6..5bbf60a 100644
--- a/src/avb/core.py
+++ b/src/avb/core.py
@@ -99,15 +99,16 @@ class AVBRefList(list):
         return result
 
     def clear(self):
-        super(AVBRefList, self)
+        super(AVBRefList, self).__delitem__(slice(None))
         self.mark_modified()
 
     def sort(self, key=None, reverse=False):
-        super(AVBRefList, self)
+        items = sorted(self, key=key, reverse=reverse)
+        super(AVBRefList, self).__setitem__(slice(None), items)
         self.mark_modified()
 
     def reverse(self):
-        super(AVBRefList, self)
+        super(AVBRefList, self).reverse()
         self.mark_modified()
 
     def deref(self, value):
-- 
2.43.0


From 97ec837a03819fde4cdc547ae7187bdf1e2c15a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:26 +0000
Subject: [PATCH 15/39] fix: search and slice the objects of a reference list,
 not its stored references

---
 src/avb/core.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/avb/core.py b/src/avb/core.py
index 5bbf60a..53f343a 100644
--- a/src/avb/core.py
+++ b/src/avb/core.py
@@ -90,8 +90,7 @@ class AVBRefList(list):
         self.mark_modified()
 
     def remove(self, x):
-        super(AVBRefList, self).remove(x)
-        self.mark_modified()
+        del self[self.index(x)]
 
     def pop(self, i=-1):
         result = self.deref(super(AVBRefList, self).pop(i))
@@ -119,8 +118,24 @@ class AVBRefList(list):
             return value.value
         return value
 
+    def index(self, *args):
+        return list(self).index(*args)
+
+    def count(self, x):
+        return list(self).count(x)
+
+    def __contains__(self, x):
+        return any(item is x or item == x for item in self)
+
+    def __reversed__(self):
+        for value in super(AVBRefList, self).__reversed__():
+            yield self.deref(value)
+
     def __getitem__(self, index):
-        return self.deref(super(AVBRefList, self).__getitem__(index))
+        result = super(AVBRefList, self).__getitem__(index)
+        if isinstance(index, slice):
+            return [self.deref(value) for value in result]
+        return self.deref(result)
 
     def __setitem__(self, index, value):
         super(AVBRefList, self).__setitem__(index, value)
-- 
2.43.0


From 4519bac86ebead8d561fe058e7ab540122e70b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:26 +0000
Subject: [PATCH 16/39] fix: register += and *= on reference lists as
 modifications

---
 src/avb/core.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/avb/core.py b/src/avb/core.py
index 53f343a..0253b50 100644
--- a/src/avb/core.py
+++ b/src/avb/core.py
@@ -81,6 +81,15 @@ class AVBRefList(list):
         super(AVBRefList, self).extend(x)
         self.mark_modified()
 
+    def __iadd__(self, x):
+        self.extend(x)
+        return self
+
+    def __imul__(self, n):
+        super(AVBRefList, self).__setitem__(slice(None), list(self) * n)
+        self.mark_modified()
+        return self
+
     def append(self, x):
         super(AVBRefList, self).append(x)
         self.mark_modified()
-- 
2.43.0


From 164c590c44315a13a683178a63aff28f8bb62095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:26 +0000
Subject: [PATCH 17/39] fix: register popitem and move_to_end on attributes as
 modifications

---
 src/avb/attributes.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/avb/attributes.py b/src/avb/attributes.py
index 90af5be..457caff 100644
--- a/src/avb/attributes.py
+++ b/src/avb/attributes.py
@@ -46,10 +46,19 @@ class Attributes(AVBPropertyData):
         self.mark_modified()
 
     def pop(self, *args, **kwargs):
-        result = super(Attributes, self).pop(*args, **kwargs)
+        result = self.deref(super(Attributes, self).pop(*args, **kwargs))
         self.mark_modified()
         return result
 
+    def popitem(self, *args, **kwargs):
+        key, value = super(Attributes, self).popitem(*args, **kwargs)
+        self.mark_modified()
+        return key, self.deref(value)
+
+    def move_to_end(self, *args, **kwargs):
+        super(Attributes, self).move_to_end(*args, **kwargs)
+        self.mark_modified()
+
     def copy(self, root):
         obj = root.create.from_name(self.__class__.__name__)
         for key, value in self.items():
-- 
2.43.0


From 35d448f2026c18b5c7d0686216d5c57196dbfc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:26 +0000
Subject: [PATCH 18/39] fix: return objects and not stored references from the
 values of attributes

---
 src/avb/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/avb/core.py b/src/avb/core.py
index 0253b50..01e54b2 100644
--- a/src/avb/core.py
+++ b/src/avb/core.py
@@ -46,6 +46,10 @@ class AVBPropertyData(OrderedDict):
         for key, value in super(AVBPropertyData, self).items():
             yield key, self.deref(value)
 
+    def values(self):
+        for value in super(AVBPropertyData, self).values():
+            yield self.deref(value)
+
     def get(self, *args, **kwargs):
         return self.deref(super(AVBPropertyData, self).get(*args, **kwargs))
 
-- 
2.43.0


From 9dec7861d95fc45d87e8bd003b03b5b43590e9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:26 +0000
Subject: [PATCH 19/39] fix: do not share list defaults between all objects of
 a class

---
 src/avb/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/avb/core.py b/src/avb/core.py
index 01e54b2..5e2269e 100644
--- a/src/avb/core.py
+++ b/src/avb/core.py
@@ -5,6 +5,7 @@ from __future__ import (
     division,
     )
 
+import copy
 import sys
 from collections import OrderedDict
 from . import utils
@@ -208,7 +209,7 @@ class AVBObject(object):
         for pdef in self.propertydefs:
             if pdef.default is sentinel:
                 continue
-            self.__setattr__(pdef.name, pdef.default)
+            self.__setattr__(pdef.name, copy.deepcopy(pdef.default))
 
     def mark_modified(self):
         if not self.root.reading and hasattr(self, 'instance_id'):
-- 
2.43.0


From 036232438bf569292b2280bf7edaf4b0e764cc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:26 +0000
Subject: [PATCH 20/39] fix: do not share the default columns between all bin
 view settings

---
 src/avb/bin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avb/bin.py b/src/avb/bin.py
index a4f7475..357df85 100644
--- a/src/avb/bin.py
+++ b/src/avb/bin.py
@@ -87,7 +87,7 @@ class BinViewSetting(Setting):
         self.attributes = self.root.create.Attributes()
         self.format_descriptors = []
         self.columns = []
-        self.columns.extend(default_bin_columns)
+        self.columns.extend(dict(column) for column in default_bin_columns)
 
     def read(self, f):
         super(BinViewSetting, self).read(f)
-- 
2.43.0


From f1bea65ca73758e6e2937c46b784e4fc6ca1d528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:26 +0000
Subject: [PATCH 21/39] fix: create and copy AudioSuite plug-ins

---
 src/avb/trackgroups.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avb/trackgroups.py b/src/avb/trackgroups.py
index d8a0d95..80bd5cc 100644
--- a/src/avb/trackgroups.py
+++ b/src/avb/trackgroups.py
@@ -424,8 +424,8 @@ class ASPIPlugin(core.AVBObject):
     ]
     __slots__ = ()
 
-    def __init__(self, root):
-        super(ASPIPlugin, self).__init__(root)
+    def __init__(self):
+        super(ASPIPlugin, self).__init__()
         self.chunks = []
 
 @utils.register_helper_class
-- 
2.43.0


From 2fab3861fcde39035b087d47592b0e1606f68475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:26 +0000
Subject: [PATCH 22/39] fix: give new mobs their name and reject unknown mob
 types

---
 src/avb/trackgroups.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avb/trackgroups.py b/src/avb/trackgroups.py
index 80bd5cc..a0a084d 100644
--- a/src/avb/trackgroups.py
+++ b/src/avb/trackgroups.py
@@ -1048,7 +1048,7 @@ class Composition(TrackGroup):
     def __init__(self, name='Mob', mob_type="MasterMob"):
         super(Composition, self).__init__()
 
-        self.name = mob_type
+        self.name = name
         if mob_type == "CompositionMob":
             self.mob_type_id = 1
 
@@ -1058,7 +1058,7 @@ class Composition(TrackGroup):
         elif mob_type == "SourceMob":
             self.mob_type_id = 3
         else:
-            ValueError("Unknown mob type: %d" % mob_type)
+            raise ValueError("Unknown mob type: %s" % mob_type)
 
         self.mob_id = mobid.MobID.new()
         now = datetime.datetime.now()
-- 
2.43.0


From 80a6708155ec091ce07a0d7a26671c6f7ba869e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:26 +0000
Subject: [PATCH 23/39] fix: let each creator obtained from the factory create
 its own class

---
 src/avb/file.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/avb/file.py b/src/avb/file.py
index 8030786..9136f15 100644
--- a/src/avb/file.py
+++ b/src/avb/file.py
@@ -6,6 +6,7 @@ from __future__ import (
     )
 
 import datetime
+import functools
 
 import struct
 import io
@@ -58,11 +59,9 @@ class AVBFactory(object):
 
     def __init__(self, root):
         self.root = root
-        self.class_name = None
 
     def __getattr__(self, name):
-        self.class_name = name
-        return self.create_instance
+        return functools.partial(self.from_name, name)
 
     def from_name(self, name, *args, **kwargs):
 
@@ -84,9 +83,6 @@ class AVBFactory(object):
 
         return obj
 
-    def create_instance(self, *args, **kwargs):
-        return self.from_name(self.class_name, *args, **kwargs)
-
 LE_BYTE_ORDER = b'\x06\x00'
 BE_BYTE_ORDER = b'\x00\x06'
 MAGIC=b'Domain'
-- 
2.43.0


From 182d9ca09564ce2ed9b3f956a2f8958183a60ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:45 +0000
Subject: [PATCH 24/39] fix: make copies of objects equal to and independent of
 their source

---
 src/avb/core.py | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/src/avb/core.py b/src/avb/core.py
index 5e2269e..921ba8a 100644
--- a/src/avb/core.py
+++ b/src/avb/core.py
@@ -79,7 +79,7 @@ class AVBRefList(list):
     def copy(self, root, parent=None):
         obj = root.create.from_name(self.__class__.__name__)
         for item in self:
-            obj.append(item.copy(root))
+            obj.append(copy_value(item, root))
         return obj
 
     def extend(self, x):
@@ -193,6 +193,14 @@ def walk_references(obj):
         yield obj
 
 
+def copy_value(value, root):
+    if isinstance(value, (AVBObject, AVBRefList, AVBPropertyData)):
+        return value.copy(root)
+    if isinstance(value, list):
+        return [copy_value(item, root) for item in value]
+    # MobIDs, bytearrays and dicts can be changed in place
+    return copy.deepcopy(value)
+
 class AVBObject(object):
     propertydefs = []
     propertydefs_dict = None
@@ -250,24 +258,12 @@ class AVBObject(object):
 
     def copy(self, root):
         obj = root.create.from_name(self.__class__.__name__)
+        # drop the defaults of properties this object doesn't have
+        obj.property_data.clear()
         for key, value in self.property_data.items():
-            if isinstance(value, AVBObject):
-                obj.property_data[key] = value.copy(root)
-            elif isinstance(value, AVBRefList):
-                obj.property_data[key] = value.copy(root)
-                if value.parent:
-                    obj.property_data[key].parent = obj
-            elif isinstance(value, AVBPropertyData):
-                obj.property_data[key] = value.copy(root)
-            elif isinstance(value, list):
-                obj.property_data[key] = []
-                for item in value:
-                    if isinstance(item, AVBObject):
-                        obj.property_data[key].append(item.copy(root))
-                    else:
-                        obj.property_data[key].append(item)
-            else:
-                obj.property_data[key] = value
+            obj.property_data[key] = copy_value(value, root)
+            if isinstance(value, AVBRefList) and value.parent:
+                obj.property_data[key].parent = obj
 
         return obj
 
-- 
2.43.0


From 86e86a54e943ee4db20f2743fda78db75353a0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:45 +0000
Subject: [PATCH 25/39] fix: copy attributes that have a null reference

---
 src/avb/attributes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/avb/attributes.py b/src/avb/attributes.py
index 457caff..3305648 100644
--- a/src/avb/attributes.py
+++ b/src/avb/attributes.py
@@ -70,6 +70,8 @@ class Attributes(AVBPropertyData):
                 obj[key] = value[:]
             elif isinstance(value, bytes):
                 raise ValueError("%s: bytes value type too ambiguous, use bytearray or unicode str" % key)
+            elif value is None:
+                obj[key] = None
             else:
                 obj[key] = value.copy(root)
         return obj
-- 
2.43.0


From 9e249229e1ed1afa17d6a5e18fdbd18172eeafb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:45 +0000
Subject: [PATCH 26/39] fix: refuse to store a reference to an object of
 another file

---
 src/avb/ioctx.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/avb/ioctx.py b/src/avb/ioctx.py
index a7e6b9e..eef4a04 100644
--- a/src/avb/ioctx.py
+++ b/src/avb/ioctx.py
@@ -196,6 +196,8 @@ class AVBIOContext(object):
             index = 0
         elif root.debug_copy_refs:
             index = value.index
+        elif value.root is not root:
+            raise ValueError("object is from different file: " + str(value))
         elif value.instance_id not in root.ref_mapping:
             raise Exception("object not written yet")
         else:
-- 
2.43.0


From c2a12634ff4d8b823bee6a1e511b30cb848a616f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:18 +0000
Subject: [PATCH 27/39] fix: let a mob's name be passed by keyword when
 creating it

---
 src/avb/file.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/avb/file.py b/src/avb/file.py
index 9136f15..2eea0c8 100644
--- a/src/avb/file.py
+++ b/src/avb/file.py
@@ -63,11 +63,11 @@ class AVBFactory(object):
     def __getattr__(self, name):
         return functools.partial(self.from_name, name)
 
-    def from_name(self, name, *args, **kwargs):
+    def from_name(self, class_name, *args, **kwargs):
 
-        classobj = utils.AVBClassName_dict.get(name, None)
+        classobj = utils.AVBClassName_dict.get(class_name, None)
         if not classobj:
-            raise ValueError("could not find class for: " + name)
+            raise ValueError("could not find class for: " + class_name)
 
         # obj = classobj(None, *args, **kwargs)
         obj = classobj.__new__(classobj)
-- 
2.43.0


From 36379f3aad93a6f59aec8fa89eddaacf09957d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:53 +0000
Subject: [PATCH 28/39] fix: refuse truncated records in the compiled reader

---
 src/avb/_ext_core.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/avb/_ext_core.cpp b/src/avb/_ext_core.cpp
index 36e9edb..504c9d3 100644
--- a/src/avb/_ext_core.cpp
+++ b/src/avb/_ext_core.cpp
@@ -1,4 +1,5 @@
 #include <vector>
+#include <stdexcept>
 #include <math.h>
 
 #ifdef _MSC_VER
@@ -169,7 +170,7 @@ static inline uint8_t read_u8(Buffer *f)
 {
     if (f->ptr <= f->end)
         return *f->ptr++;
-    return 0;
+    throw std::out_of_range("unexpected end of data");
 }
 
 #define S1(x) #x
-- 
2.43.0


From 1162ed9b34cc9ce0ae0f291585d90f6e53bf162c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:53 +0000
Subject: [PATCH 29/39] fix: do not ignore errors of the parts of a record in
 the compiled reader

---
 src/avb/_ext_core.cpp | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/avb/_ext_core.cpp b/src/avb/_ext_core.cpp
index 504c9d3..5bd5743 100644
--- a/src/avb/_ext_core.cpp
+++ b/src/avb/_ext_core.cpp
@@ -463,7 +463,7 @@ static int read_comp(Buffer *f, Properties *p)
 
 static int read_sequence(Buffer *f, Properties *p)
 {
-    read_comp(f, p);
+    check(read_comp(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x03);
 
@@ -482,7 +482,7 @@ static int read_sequence(Buffer *f, Properties *p)
 }
 static int read_clip(Buffer *f, Properties *p)
 {
-    read_comp(f, p);
+    check(read_comp(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x01);
     add_uint(p, "length", read_u32le(f)); // should this be a int?
@@ -492,7 +492,7 @@ static int read_clip(Buffer *f, Properties *p)
 
 static int read_filler(Buffer *f, Properties *p)
 {
-    read_clip(f, p);
+    check(read_clip(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x01);
 
@@ -502,7 +502,7 @@ static int read_filler(Buffer *f, Properties *p)
 
 static int read_sourceclip(Buffer *f, Properties *p)
 {
-    read_clip(f, p);
+    check(read_clip(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x03);
 
@@ -518,7 +518,7 @@ static int read_sourceclip(Buffer *f, Properties *p)
         uint8_t tag = read_u8(f);
         switch (tag) {
             case 0x01:
-                read_mob_id(p, f, "mob_id");
+                check(read_mob_id(p, f, "mob_id"));
                 break;
             default:
                 fprintf(stderr, "unknown ext tag: %d\n", tag);
@@ -534,7 +534,7 @@ static int read_sourceclip(Buffer *f, Properties *p)
 
 static int read_paramclip(Buffer *f, Properties *p)
 {
-    read_clip(f, p);
+    check(read_clip(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x01);
 
@@ -663,7 +663,7 @@ static int read_paramitem(Buffer *f, Properties *p)
 
 static int read_trackref(Buffer *f, Properties *p)
 {
-    read_clip(f, p);
+    check(read_clip(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x01);
 
@@ -676,7 +676,7 @@ static int read_trackref(Buffer *f, Properties *p)
 
 static int read_trackgroup(Buffer *f, Properties *p)
 {
-    read_comp(f, p);
+    check(read_comp(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x08);
 
@@ -756,7 +756,7 @@ static int read_trackgroup(Buffer *f, Properties *p)
 
 static int read_trackeffect(Buffer *f, Properties *p)
 {
-    read_trackgroup(f, p);
+    check(read_trackgroup(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x06);
 
@@ -794,7 +794,7 @@ static int read_trackeffect(Buffer *f, Properties *p)
 
 static int read_selector(Buffer *f, Properties *p)
 {
-    read_trackgroup(f, p);
+    check(read_trackgroup(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x01);
 
@@ -808,7 +808,7 @@ static int read_selector(Buffer *f, Properties *p)
 
 static int read_composition(Buffer *f, Properties *p)
 {
-    read_trackgroup(f, p);
+    check(read_trackgroup(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x02);
 
@@ -830,7 +830,7 @@ static int read_composition(Buffer *f, Properties *p)
                 add_date(p, "creation_time", read_u32le(f));
                 break;
             case 0x02:
-                read_mob_id(p, f, "mob_id");
+                check(read_mob_id(p, f, "mob_id"));
                 break;
             default:
                 fprintf(stderr, "unknown ext tag: %d\b",tag);
@@ -899,7 +899,7 @@ static int read_media_file_descriptor(Buffer *f,  Properties *p)
 
 static int read_did_descriptor(Buffer *f,  Properties *p)
 {
-    read_media_file_descriptor(f, p);
+    check(read_media_file_descriptor(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x02);
 
@@ -1107,7 +1107,7 @@ static int read_did_descriptor(Buffer *f,  Properties *p)
 
 static int read_cdci_descriptor(Buffer *f, Properties *p)
 {
-    read_did_descriptor(f, p);
+    check(read_did_descriptor(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x02);
 
-- 
2.43.0


From e42449492b4454573767ebbc2c7da2762288cdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:53 +0000
Subject: [PATCH 30/39] fix: check the end of empty attributes in the compiled
 reader

---
 src/avb/_ext_core.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/avb/_ext_core.cpp b/src/avb/_ext_core.cpp
index 5bd5743..9be01bd 100644
--- a/src/avb/_ext_core.cpp
+++ b/src/avb/_ext_core.cpp
@@ -1237,10 +1237,7 @@ static int read_attributes(Buffer *f, std::vector<AttrData> &d)
     size_t attr_count = read_u32le(f);
     d.resize(attr_count);
 
-    if (attr_count == 0)
-        return 0;
-
-    AttrData *ptr = &d[0];
+    AttrData *ptr = attr_count ? &d[0] : NULL;
 
     for(size_t i =0; i < attr_count; i++) {
         ptr->type = (AttrType)read_u32le(f);
-- 
2.43.0


From 0722f3bd5e28ef222b15dcbc51125907e049de25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:04 +0000
Subject: [PATCH 31/39] fix: read negative numbers with the compiled reader

---
 src/avb/_ext.pyx      | 4 ++--
 src/avb/_ext_core.cpp | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/avb/_ext.pyx b/src/avb/_ext.pyx
index 76e3e38..950496a 100644
--- a/src/avb/_ext.pyx
+++ b/src/avb/_ext.pyx
@@ -216,7 +216,7 @@ cdef void controlpoints2dict(object root, dict d, Properties* p):
             cpdata['timescale'] = cp.timescale
 
             if item.value_type == CP_TYPE_INT:
-                cpdata['value'] = cp.value
+                cpdata['value'] = <int32_t>cp.value
             elif item.value_type == CP_TYPE_DOUBLE:
                 cpdata['value'] =cp.double_value
             elif item.value_type == CP_TYPE_REFERENCE:
@@ -230,7 +230,7 @@ cdef void controlpoints2dict(object root, dict d, Properties* p):
                 if pp.type == CP_TYPE_DOUBLE:
                     ppdata['value'] = pp.double_value
                 elif pp.type == CP_TYPE_INT:
-                    ppdata['value'] = pp.value
+                    ppdata['value'] = <int32_t>pp.value
 
                 py_pp = pp_obj_class.__new__(pp_obj_class, root=root)
                 py_pp.property_data = ppdata
diff --git a/src/avb/_ext_core.cpp b/src/avb/_ext_core.cpp
index 9be01bd..c879b64 100644
--- a/src/avb/_ext_core.cpp
+++ b/src/avb/_ext_core.cpp
@@ -433,7 +433,7 @@ static int read_comp(Buffer *f, Properties *p)
     add_object_ref(p, "left_bob", read_u32le(f));
     add_object_ref(p, "right_bob", read_u32le(f));
 
-    add_uint(p, "media_kind_id", read_u16le(f));
+    add_int(p, "media_kind_id", (int16_t)read_u16le(f));
 
     add_double(p, "edit_rate", read_exp10_encoded_float(f));
 
@@ -819,7 +819,7 @@ static int read_composition(Buffer *f, Properties *p)
 
     add_date(p, "last_modified", read_u32le(f));
     add_uint(p, "mob_type_id", read_u8(f));
-    add_int(p, "usage_code", read_u32le(f));
+    add_int(p, "usage_code", (int32_t)read_u32le(f));
     add_object_ref(p, "descriptor", read_u32le(f));
 
     while (iter_ext(f)) {
@@ -1113,7 +1113,7 @@ static int read_cdci_descriptor(Buffer *f, Properties *p)
 
     add_uint(p, "horizontal_subsampling", read_u32le(f));
     add_uint(p, "vertical_subsampling", read_u32le(f));
-    add_uint(p, "component_width", read_u32le(f));
+    add_int(p, "component_width", (int32_t)read_u32le(f));
 
     add_int(p, "color_sitting", (int16_t)read_u16le(f));
     add_uint(p, "black_ref_level", read_u32le(f));
-- 
2.43.0


From f0887f5d10a8ca8edee0ae31f122d2348692b8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:04 +0000
Subject: [PATCH 32/39] fix: read offsets of control points as lists with the
 compiled reader

---
 src/avb/_ext.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avb/_ext.pyx b/src/avb/_ext.pyx
index 950496a..f710328 100644
--- a/src/avb/_ext.pyx
+++ b/src/avb/_ext.pyx
@@ -212,7 +212,7 @@ cdef void controlpoints2dict(object root, dict d, Properties* p):
         for cp in item.data:
 
             cpdata = AVBPropertyData()
-            cpdata['offset'] = (cp.offset_num, cp.offset_den)
+            cpdata['offset'] = [cp.offset_num, cp.offset_den]
             cpdata['timescale'] = cp.timescale
 
             if item.value_type == CP_TYPE_INT:
-- 
2.43.0


From 055654076f42f2bd4a203a52307614ebcffb689c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:04 +0000
Subject: [PATCH 33/39] fix: read empty names of components as None with the
 compiled reader

---
 src/avb/_ext.pyx      | 3 +++
 src/avb/_ext_core.cpp | 8 +++++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/avb/_ext.pyx b/src/avb/_ext.pyx
index f710328..3ce2a0b 100644
--- a/src/avb/_ext.pyx
+++ b/src/avb/_ext.pyx
@@ -80,6 +80,7 @@ cdef extern from "_ext_core.cpp" nogil:
     cdef struct StringData:
         const char *name
         StringType type
+        bint none_if_empty
         vector[uint8_t] data
 
     cdef struct BytesData:
@@ -304,6 +305,8 @@ cdef void strings2dict(dict d, Properties *p):
         if data_size > 0:
             ptr = <const char *>&item.data[0]
             d[item.name.decode('utf-8')] = ptr[:data_size].decode("macroman")
+        elif item.none_if_empty:
+            d[item.name.decode('utf-8')] = None
         else:
             d[item.name.decode('utf-8')] = u""
 
diff --git a/src/avb/_ext_core.cpp b/src/avb/_ext_core.cpp
index c879b64..7a6da80 100644
--- a/src/avb/_ext_core.cpp
+++ b/src/avb/_ext_core.cpp
@@ -129,6 +129,7 @@ struct ControlPointData {
 struct StringData {
     const char *name;
     StringType type;
+    bool none_if_empty;
     vector<uint8_t> data;
 };
 
@@ -254,7 +255,7 @@ static inline void read_data16(Buffer *f, std::vector<uint8_t> &s)
     }
 }
 
-static inline void add_string(Properties *p, Buffer *f, const char* name, StringType t)
+static inline void add_string(Properties *p, Buffer *f, const char* name, StringType t, bool none_if_empty = false)
 {
     size_t string_size = p->strings.size();
     p->strings.resize(string_size + 1);
@@ -262,6 +263,7 @@ static inline void add_string(Properties *p, Buffer *f, const char* name, String
 
     s.name = name;
     s.type = t;
+    s.none_if_empty = none_if_empty;
     read_data16(f, s.data);
 }
 
@@ -437,8 +439,8 @@ static int read_comp(Buffer *f, Properties *p)
 
     add_double(p, "edit_rate", read_exp10_encoded_float(f));
 
-    add_string(p, f, "name", MACROMAN);
-    add_string(p, f, "effect_id", MACROMAN);
+    add_string(p, f, "name", MACROMAN, true);
+    add_string(p, f, "effect_id", MACROMAN, true);
 
     add_object_ref(p, "attributes", read_u32le(f));
     add_object_ref(p, "session_attrs", read_u32le(f));
-- 
2.43.0


From ec623af714c65c91ee896f9334ea0a6b3145d726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:04 +0000
Subject: [PATCH 34/39] fix: set the owner of reference lists in the compiled
 reader

---
 src/avb/_ext.pyx | 39 ++++++++++++++++++---------------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/src/avb/_ext.pyx b/src/avb/_ext.pyx
index 3ce2a0b..3517cde 100644
--- a/src/avb/_ext.pyx
+++ b/src/avb/_ext.pyx
@@ -177,12 +177,12 @@ cdef void refs2dict(object root, dict d, Properties* p):
     for item in p.refs:
         d[item.name.decode('utf-8')] = AVBObjectRef(root, item.data.u64)
 
-cdef void reflist2dict(object root, dict d, Properties* p):
+cdef void reflist2dict(object root, object parent, dict d, Properties* p):
     cdef RefListData item
     cdef uint32_t i
 
     for item in p.reflists:
-        reflist = core.AVBRefList.__new__(core.AVBRefList, root=root)
+        reflist = core.AVBRefList.__new__(core.AVBRefList, root=root, parent=parent)
         reflist.extend(item.data)
         d[item.name.decode('utf-8')] = reflist
 
@@ -315,21 +315,18 @@ cdef void children2dict(object root, dict d, Properties *p):
     cdef Properties child_properties
 
     cdef list plist
-    cdef dict pdata
 
     for item in p.children:
         plist = []
 
         for child_properties in item.data:
-            pdata = process_poperties(root, &child_properties)
-
             if child_properties.type == TRACK:
                 obj_class = utils.AVBClassName_dict['Track']
             elif child_properties.type == PARAM:
                 obj_class = utils.AVBClassName_dict['EffectParam']
 
             object_instance = obj_class.__new__(obj_class, root=root)
-            object_instance.property_data = pdata
+            object_instance.property_data = process_poperties(root, object_instance, &child_properties)
             plist.append(object_instance)
 
         d[item.name.decode('utf-8')] = plist
@@ -358,13 +355,13 @@ cdef void bytearray2dict(dict d, Properties *p):
         else:
             d[item.name.decode('utf-8')] = bytearray()
 
-cdef dict process_poperties(object root, Properties *p):
+cdef dict process_poperties(object root, object parent, Properties *p):
     cdef dict result = AVBPropertyData()
 
     if p.refs.size():
         refs2dict(root, result, p)
     if p.reflists.size():
-        reflist2dict(root, result, p)
+        reflist2dict(root, parent, result, p)
     if p.ints.size():
         ints2dict(result, p)
     if p.doubles.size():
@@ -471,7 +468,7 @@ def read_sequence_data(root, object_instance, const unsigned char[:] data):
     if ret < 0:
         raise ValueError("Error reading SEQU: %s" % buf.error_message.decode("utf-8"))
 
-    cdef dict result = process_poperties(root, &p)
+    cdef dict result = process_poperties(root, object_instance, &p)
 
     object_instance.property_data = result
 
@@ -490,7 +487,7 @@ def read_sourceclip_data(root, object_instance, const unsigned char[:] data):
     if ret < 0:
         raise ValueError("Error reading SCLP: %s" % buf.error_message.decode("utf-8"))
 
-    cdef dict result = process_poperties(root, &p)
+    cdef dict result = process_poperties(root, object_instance, &p)
 
     object_instance.property_data = result
 
@@ -512,7 +509,7 @@ def read_paramclip_data(root, object_instance, const unsigned char[:] data):
         raise ValueError("Error reading PRCL: %s" % buf.error_message.decode("utf-8"))
 
     # print_property_sizes(&p)
-    cdef dict result = process_poperties(root, &p)
+    cdef dict result = process_poperties(root, object_instance, &p)
 
     object_instance.property_data = result
 
@@ -532,7 +529,7 @@ def read_paramitem_data(root, object_instance, const unsigned char[:] data):
         raise ValueError("Error reading PRIT: %s" % buf.error_message.decode("utf-8"))
 
     # print_property_sizes(&p)
-    cdef dict result = process_poperties(root, &p)
+    cdef dict result = process_poperties(root, object_instance, &p)
 
     object_instance.property_data = result
 
@@ -551,7 +548,7 @@ def read_trackref_data(root, object_instance, const unsigned char[:] data):
     if ret < 0:
         raise ValueError("Error reading TRKR: %s" % buf.error_message.decode("utf-8"))
 
-    cdef dict result = process_poperties(root, &p)
+    cdef dict result = process_poperties(root, object_instance, &p)
 
     object_instance.property_data = result
 
@@ -570,7 +567,7 @@ def read_filler_data(root, object_instance, const unsigned char[:] data):
     if ret < 0:
         raise ValueError("Error reading FILL: %s" % buf.error_message.decode("utf-8"))
 
-    cdef dict result = process_poperties(root, &p)
+    cdef dict result = process_poperties(root, object_instance, &p)
 
     object_instance.property_data = result
 
@@ -589,7 +586,7 @@ def reads_selector_data(root, object_instance, const unsigned char[:] data):
     if ret < 0:
         raise ValueError("Error reading SLCT: %s" % buf.error_message.decode("utf-8"))
 
-    cdef dict result = process_poperties(root, &p)
+    cdef dict result = process_poperties(root, object_instance, &p)
 
     object_instance.property_data = result
 
@@ -612,7 +609,7 @@ def read_composition_data(root, object_instance, const unsigned char[:] data):
         raise ValueError("Error reading CMPO: %s" % buf.error_message.decode("utf-8"))
 
     # print_property_sizes(&p)
-    cdef dict result = process_poperties(root, &p)
+    cdef dict result = process_poperties(root, object_instance, &p)
 
     object_instance.property_data = result
 
@@ -632,7 +629,7 @@ def read_media_descriptor_data(root, object_instance, const unsigned char[:] dat
         raise ValueError("Error reading MDES: %s" % buf.error_message.decode("utf-8"))
 
     # print_property_sizes(&p)
-    cdef dict result = process_poperties(root, &p)
+    cdef dict result = process_poperties(root, object_instance, &p)
 
     object_instance.property_data = result
 
@@ -652,7 +649,7 @@ def read_did_descriptor_data(root, object_instance, const unsigned char[:] data)
         raise ValueError("Error reading DIDD: %s" % buf.error_message.decode("utf-8"))
 
     # print_property_sizes(&p)
-    cdef dict result = process_poperties(root, &p)
+    cdef dict result = process_poperties(root, object_instance, &p)
 
     object_instance.property_data = result
 
@@ -673,7 +670,7 @@ def read_cdci_descriptor_data(root, object_instance, const unsigned char[:] data
         raise ValueError("Error reading CDCI: %s" % buf.error_message.decode("utf-8"))
 
     # print_property_sizes(&p)
-    cdef dict result = process_poperties(root, &p)
+    cdef dict result = process_poperties(root, object_instance, &p)
 
     object_instance.property_data = result
 
@@ -694,7 +691,7 @@ def read_trackeffect_data(root, object_instance, const unsigned char[:] data):
     if ret < 0:
         raise ValueError("Error reading TKFX: %s" % buf.error_message.decode("utf-8"))
 
-    cdef dict result = process_poperties(root, &p)
+    cdef dict result = process_poperties(root, object_instance, &p)
 
     # print_property_sizes(&p)
     object_instance.property_data = result
@@ -714,7 +711,7 @@ def read_effectparamlist_data(root, object_instance, const unsigned char[:] data
     if ret < 0:
         raise ValueError("Error reading FXPS: %s" % buf.error_message.decode("utf-8"))
 
-    cdef dict result = process_poperties(root, &p)
+    cdef dict result = process_poperties(root, object_instance, &p)
 
     object_instance.property_data = result
 
-- 
2.43.0


From 0078e946f154c38d39b654ce40d42b00b62b1690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:04 +0000
Subject: [PATCH 35/39] fix: resolve references in values of properties read by
 the compiled reader

---
 src/avb/_ext.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/avb/_ext.pyx b/src/avb/_ext.pyx
index 3517cde..3b6f1f3 100644
--- a/src/avb/_ext.pyx
+++ b/src/avb/_ext.pyx
@@ -169,6 +169,10 @@ cdef class AVBPropertyData(dict):
         for key, value in super(AVBPropertyData, self).items():
             yield key, self.deref(value)
 
+    def values(self):
+        for value in super(AVBPropertyData, self).values():
+            yield self.deref(value)
+
     def get(self, *args, **kwargs):
         return self.deref(super(AVBPropertyData, self).get(*args, **kwargs))
 
-- 
2.43.0


From 3ae1ec54542f7a544f9fe526c6b58ef1422ae75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:04 +0000
Subject: [PATCH 36/39] fix: check the end of track effects and descriptors in
 the compiled reader

---
 src/avb/_ext_core.cpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/avb/_ext_core.cpp b/src/avb/_ext_core.cpp
index 7a6da80..5df3e88 100644
--- a/src/avb/_ext_core.cpp
+++ b/src/avb/_ext_core.cpp
@@ -791,6 +791,8 @@ static int read_trackeffect(Buffer *f, Properties *p)
         }
     }
 
+    read_assert_tag(f, 0x03);
+
     return 0;
 }
 
@@ -846,7 +848,7 @@ static int read_composition(Buffer *f, Properties *p)
     return 0;
 }
 
-static int read_media_descriptor(Buffer *f,  Properties *p)
+static int read_media_descriptor_fields(Buffer *f,  Properties *p)
 {
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x03);
@@ -885,9 +887,17 @@ static int read_media_descriptor(Buffer *f,  Properties *p)
     return 0;
 }
 
+static int read_media_descriptor(Buffer *f,  Properties *p)
+{
+    check(read_media_descriptor_fields(f, p));
+    read_assert_tag(f, 0x03);
+
+    return 0;
+}
+
 static int read_media_file_descriptor(Buffer *f,  Properties *p)
 {
-    check(read_media_descriptor(f, p));
+    check(read_media_descriptor_fields(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x03);
 
@@ -899,7 +909,7 @@ static int read_media_file_descriptor(Buffer *f,  Properties *p)
     return 0;
 }
 
-static int read_did_descriptor(Buffer *f,  Properties *p)
+static int read_did_descriptor_fields(Buffer *f,  Properties *p)
 {
     check(read_media_file_descriptor(f, p));
     read_assert_tag(f, 0x02);
@@ -1107,9 +1117,17 @@ static int read_did_descriptor(Buffer *f,  Properties *p)
     return 0;
 }
 
+static int read_did_descriptor(Buffer *f,  Properties *p)
+{
+    check(read_did_descriptor_fields(f, p));
+    read_assert_tag(f, 0x03);
+
+    return 0;
+}
+
 static int read_cdci_descriptor(Buffer *f, Properties *p)
 {
-    check(read_did_descriptor(f, p));
+    check(read_did_descriptor_fields(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x02);
 
-- 
2.43.0


From 28d338f6b1e73e10ce3c90113494960184b45abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:42 +0000
Subject: [PATCH 37/39] fix: check the selected track in the compiled reader

---
 src/avb/_ext_core.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/avb/_ext_core.cpp b/src/avb/_ext_core.cpp
index 5df3e88..58045e8 100644
--- a/src/avb/_ext_core.cpp
+++ b/src/avb/_ext_core.cpp
@@ -803,7 +803,14 @@ static int read_selector(Buffer *f, Properties *p)
     read_assert_tag(f, 0x01);
 
     add_bool(p, "is_ganged", read_bool(f));
-    add_uint(p, "selected",  read_u16le(f));
+    uint16_t selected = read_u16le(f);
+    add_uint(p, "selected",  selected);
+
+    if (selected >= p->children[p->children.size()-1].data.size()) {
+        fprintf(stderr, "selected track %d does not exist\n", selected);
+        f->error_message = ASSERT_MESSAGE;
+        return -1;
+    }
 
     read_assert_tag(f, 0x03);
 
-- 
2.43.0


From 12ddac157a7e054a78694d562d8cf129f75b5ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:40 +0000
Subject: [PATCH 38/39] fix: strip zero bytes around text in the compiled
 reader

---
 src/avb/_ext.pyx | 36 ++++++++++++++++--------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/src/avb/_ext.pyx b/src/avb/_ext.pyx
index 3b6f1f3..7497e14 100644
--- a/src/avb/_ext.pyx
+++ b/src/avb/_ext.pyx
@@ -297,22 +297,25 @@ cdef void mob_id2dict(dict d, Properties *p):
 
         d[item.name.decode('utf-8')] = MobID(bytes_le=data)
 
-cdef void strings2dict(dict d, Properties *p):
+cdef object decode_string(vector[uint8_t] &data):
     cdef const char * ptr
+    cdef size_t data_size = data.size()
+
+    if data_size == 0:
+        return u""
+
+    ptr = <const char *>&data[0]
+    return (<bytes> ptr[:data_size]).strip(b'\x00').decode("macroman")
 
+cdef void strings2dict(dict d, Properties *p):
     cdef StringData item
-    cdef size_t data_size;
+    cdef object value
 
     for item in p.strings:
-        data_size = item.data.size()
-
-        if data_size > 0:
-            ptr = <const char *>&item.data[0]
-            d[item.name.decode('utf-8')] = ptr[:data_size].decode("macroman")
-        elif item.none_if_empty:
-            d[item.name.decode('utf-8')] = None
-        else:
-            d[item.name.decode('utf-8')] = u""
+        value = decode_string(item.data)
+        if item.none_if_empty:
+            value = value or None
+        d[item.name.decode('utf-8')] = value
 
 cdef void children2dict(object root, dict d, Properties *p):
     cdef ChildData item
@@ -422,12 +425,7 @@ def read_attr_data(root, object_instance, const unsigned char[:] data):
             value = <int32_t>item.value
 
         elif item.type == STR_ATTR:
-            data_size = item.data.size()
-            if data_size > 0:
-                ptr =  <const char *>&item.data[0]
-                value = ptr[:data_size].decode('macroman')
-            else:
-                value = ""
+            value = decode_string(item.data)
 
         elif item.type == OBJ_ATTR:
             value = utils.AVBObjectRef(root, item.value)
@@ -440,9 +438,7 @@ def read_attr_data(root, object_instance, const unsigned char[:] data):
             else:
                 value = bytearray()
 
-        data_size = item.name.size()
-        ptr =  <const char *>&item.name[0]
-        object_instance[ptr[:data_size].decode('macroman')] = value
+        object_instance[decode_string(item.name)] = value
 
 # cdef print_property_sizes(Properties *p):
 #     print("refs",           p.refs.size())
-- 
2.43.0


From b0fe3eefe80132384964dd1b55468186ebb8c89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:28 +0000
Subject: [PATCH 39/39] fix: the compiled reader of parameter clips refuses an
 unknown kind of value also without control points

---
 src/avb/_ext_core.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/avb/_ext_core.cpp b/src/avb/_ext_core.cpp
index 58045e8..82135ad 100644
--- a/src/avb/_ext_core.cpp
+++ b/src/avb/_ext_core.cpp
@@ -545,6 +545,17 @@ static int read_paramclip(Buffer *f, Properties *p)
     ControlPointValueType value_type = (ControlPointValueType)read_u16le(f);
     add_int(p, "value_type", value_type);
 
+    switch (value_type) {
+        case CP_TYPE_INT:
+        case CP_TYPE_DOUBLE:
+        case CP_TYPE_REFERENCE:
+            break;
+        default:
+            fprintf(stderr, "unknown value_type: %d\n", value_type);
+            f->error_message = ASSERT_MESSAGE;
+            return -1;
+    }
+
     uint32_t point_count = read_u32le(f);
 
     p->control_points.resize(1);
-- 
2.43.0

