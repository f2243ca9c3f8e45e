From b89d6714942434b720ade4132acf33f678b5786b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:38 +0000
Subject: [PATCH 01/71] fix: advance by bytes, not registers, when a map write
 spans groups

---
 sunspec/core/modbus/mbmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/modbus/mbmap.py b/sunspec/core/modbus/mbmap.py
index 0a010d3..ceb8f57 100644
--- a/sunspec/core/modbus/mbmap.py
+++ b/sunspec/core/modbus/mbmap.py
@@ -436,7 +436,7 @@ class ModbusMap(object):
                     end = int(data_offset + (write_count * 2))
                     regs.write(offset, data[start:end])
                     offset += write_count
-                    data_offset += write_count
+                    data_offset += write_count * 2
                     count_remaining -= write_count
                 else:
                     continue
-- 
2.43.0


From 86bb723d34aedc92739c4857332d813140dc91fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:41 +0000
Subject: [PATCH 02/71] fix: keep the base address of a loaded map as an
 integer

---
 sunspec/core/modbus/mbmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/modbus/mbmap.py b/sunspec/core/modbus/mbmap.py
index ceb8f57..df082c1 100644
--- a/sunspec/core/modbus/mbmap.py
+++ b/sunspec/core/modbus/mbmap.py
@@ -186,7 +186,7 @@ class ModbusMap(object):
             if value is None:
                 raise ModbusMapError('Unsupported function: %s' % (func))
             self.func = value
-            self.base_addr = root.attrib.get(MBMAP_ADDR, 40000)
+            self.base_addr = int(root.attrib.get(MBMAP_ADDR, 40000))
             self.ns = root.attrib.get(MBMAP_NS)
             self.lid = root.attrib.get(MBMAP_LID)
             self.mapid = root.attrib.get(MBMAP_MAPID)
-- 
2.43.0


From 5108efbdf780412e3449766ff06f584ff80bf337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:43 +0000
Subject: [PATCH 03/71] fix: use whole register counts for maps loaded without
 explicit lengths

---
 sunspec/core/modbus/mbmap.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sunspec/core/modbus/mbmap.py b/sunspec/core/modbus/mbmap.py
index df082c1..0c90f45 100644
--- a/sunspec/core/modbus/mbmap.py
+++ b/sunspec/core/modbus/mbmap.py
@@ -140,7 +140,7 @@ class ModbusMap(object):
                             else:
                                 data += c
 
-            mmr = ModbusMapRegs(offset, len(data)/2, data, MBMAP_REGS_ACCESS_RW)
+            mmr = ModbusMapRegs(offset, len(data)//2, data, MBMAP_REGS_ACCESS_RW)
             self.regs.append(mmr)
             f.close()
         except Exception as e:
@@ -248,7 +248,7 @@ class ModbusMap(object):
                     rlen = 4
                 elif rtype == MBMAP_REGS_TYPE_STRING:
                     if rlen == 0:
-                        rlen = (len(text) + 3)/4
+                        rlen = (len(text) + 1)//2
 
                     # Python 3 compatibility for byte strings
                     if sys.version_info > (3,):
@@ -263,7 +263,7 @@ class ModbusMap(object):
                     if text_len % 4 != 0:
                         raise ModbusMapError('Hex string content length must be a multiple of 4 bytes')
                     if rlen == 0:
-                        rlen = text_len/4
+                        rlen = text_len//4
                     text_index = 0
                     while text_index < text_len:
                         c = struct.pack('B', int(text[text_index:text_index + 2], 16))
-- 
2.43.0


From 8a6d532d47f3d0f9f16e94444a3d29fc05469cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:45 +0000
Subject: [PATCH 04/71] fix: keep register access when writing a map document

---
 sunspec/core/modbus/mbmap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sunspec/core/modbus/mbmap.py b/sunspec/core/modbus/mbmap.py
index 0c90f45..61db8d7 100644
--- a/sunspec/core/modbus/mbmap.py
+++ b/sunspec/core/modbus/mbmap.py
@@ -314,7 +314,8 @@ class ModbusMap(object):
             element = ET.SubElement(parent, MBMAP_ROOT, attrib=attr)
 
         for regs in self.regs:
-            e = ET.SubElement(element, MBMAP_REGS, attrib={MBMAP_REGS_OFFSET: str(regs.offset), MBMAP_REGS_LEN: str(regs.count)})
+            e = ET.SubElement(element, MBMAP_REGS, attrib={MBMAP_REGS_OFFSET: str(regs.offset), MBMAP_REGS_LEN: str(regs.count),
+                                                             MBMAP_REGS_ACCESS: str(regs.access)})
 
             if no_data is False:
                 s = ''
-- 
2.43.0


From 9e86257269d93e4be24beb85b9b7b9e0c4ecf1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:47 +0000
Subject: [PATCH 05/71] fix: pass model index and namespace of a data record in
 the right order

---
 sunspec/core/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/data.py b/sunspec/core/data.py
index f1d6260..48f7ca0 100644
--- a/sunspec/core/data.py
+++ b/sunspec/core/data.py
@@ -138,7 +138,7 @@ class DeviceData(object):
 
     def model_add(self, model_id=None, index=None, namespace=None):
 
-    	m = ModelData(model_id, namespace, index)
+    	m = ModelData(model_id, index, namespace)
     	self.model_data.append(m)
     	return m
 
-- 
2.43.0


From f9d8d54987f2232f549d93a7c90f0dc3b42d483c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:49 +0000
Subject: [PATCH 06/71] fix: write the model index of a data record as text

---
 sunspec/core/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/data.py b/sunspec/core/data.py
index 48f7ca0..ab82530 100644
--- a/sunspec/core/data.py
+++ b/sunspec/core/data.py
@@ -247,7 +247,7 @@ class ModelData(object):
         if self.index is None and sys.version_info > (3,):
             self.index = -233
         if self.index > 1:
-            attr[SDX_MODEL_INDEX] = self.index
+            attr[SDX_MODEL_INDEX] = str(self.index)
         if self.index is -233 and sys.version_info > (3,):
             self.index = None
         if self.namespace:
-- 
2.43.0


From 68dfe99db095d86d6b5847b77d077dff873375bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:52 +0000
Subject: [PATCH 07/71] fix: keep the timestamp of a parsed data record

---
 sunspec/core/data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sunspec/core/data.py b/sunspec/core/data.py
index ab82530..2676568 100644
--- a/sunspec/core/data.py
+++ b/sunspec/core/data.py
@@ -158,6 +158,7 @@ class DeviceData(object):
         self.mod = element.attrib.get(SDX_DEVICE_MOD)
         self.sn = element.attrib.get(SDX_DEVICE_SN)
         self.time = element.attrib.get(SDX_DEVICE_TIME)
+        self.timestamp = self.time
         self.cid = element.attrib.get(SDX_DEVICE_CORRELATION_ID)
 
         for m in element.findall('*'):
-- 
2.43.0


From 93e7fa597ee0af0ba5f69f872421a4c5559cc680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:55 +0000
Subject: [PATCH 08/71] fix: accept a base address in a PICS document

---
 sunspec/core/device.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index cafc223..51f9405 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -165,7 +165,7 @@ class Device(object):
                 d = element
             if d.tag != pics.PICS_DEVICE:
                 raise SunSpecError("Unexpected device tag: '%s'" % (d.tag))
-            self.base_addr = d.attrib.get(pics.PICS_ATTR_BASE_ADDR, pics.PICS_BASE_ADDR_DEFAULT)
+            self.base_addr = int(d.attrib.get(pics.PICS_ATTR_BASE_ADDR, pics.PICS_BASE_ADDR_DEFAULT))
             addr = self.base_addr + 2
 
             for m in d.findall('*'):
-- 
2.43.0


From 341e42a858dce31b119043650152e4e8e7922ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:57 +0000
Subject: [PATCH 09/71] fix: accept a PICS model without a length

---
 sunspec/core/device.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index 51f9405..0a5fc24 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -177,7 +177,7 @@ class Device(object):
                 model_id = m.attrib.get(pics.PICS_ATTR_ID)
                 if model_id is None:
                     raise SunSpecError('Module id error')
-                model_len = m.attrib.get(pics.PICS_ATTR_LEN)
+                model_len = m.attrib.get(pics.PICS_ATTR_LEN, 0)
                 if model_len is not None:
                     # raise SunSpecError('Module len error in model %d' % (model_id))
                     model_len = int(model_len)
-- 
2.43.0


From 9d3e0755b364d59a268463561518cc40102cb4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:00 +0000
Subject: [PATCH 10/71] fix: keep the model index of a PICS document as an
 integer

---
 sunspec/core/device.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index 0a5fc24..95fbaaf 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -798,7 +798,7 @@ class Model(object):
         """
 
         # update index if present
-        self.index = element.attrib.get(pics.PICS_ATTR_INDEX, self.index)
+        self.index = int(element.attrib.get(pics.PICS_ATTR_INDEX, self.index))
 
         for b in element.findall('*'):
             if b.tag != pics.PICS_BLOCK:
-- 
2.43.0


From d51cb003c7ea445ebdbc3a8ffa6a7aa8d0d7f28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:02 +0000
Subject: [PATCH 11/71] fix: a scaled point without a value has no value

---
 sunspec/core/device.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index 95fbaaf..d943bb6 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -510,7 +510,7 @@ class Point(object):
     # use older property format to support earlier python 2.x versions
     def value_getter(self):
 
-        if self.value_sf:
+        if self.value_sf and self.value_base is not None:
             return self.value_base * math.pow(10, self.value_sf)
         else:
             return self.value_base
-- 
2.43.0


From b44fb4aa76cdbc277ad111306550e46dc82cfc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:05 +0000
Subject: [PATCH 12/71] fix: honour unimplemented points of a PICS document in
 every block

---
 sunspec/core/device.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index d943bb6..24ee138 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -350,7 +350,7 @@ class Block(object):
         # resolve scale factor values in points, must be done after all points in block are read
         for point in self.points_list:
             if point.sf_point is not None:
-                point.value_sf = point.sf_point.value_base
+                point.value_sf = point.sf_point.value_base if point.impl else None
 
     def to_pics(self, parent):
         """Adds the block and all elements within the block to the parent
@@ -544,6 +544,7 @@ class Point(object):
 
         value = None
         if impl:
+            self.impl = True
             if element.text:
                 value = self.point_type.to_value(element.text)
                 self.impl = self.point_type.is_impl(value)
@@ -552,6 +553,8 @@ class Point(object):
 
         if self.impl and value is not None:
             self.value_base = value
+        elif not self.impl:
+            self.value_base = None
 
     def to_pics(self, parent):
         """Adds the point to the parent element.
-- 
2.43.0


From 7d231578a2667842a8ada7fd4d6f24eae1315083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:07 +0000
Subject: [PATCH 13/71] fix: report an unresolvable scale factor as
 SunSpecError

---
 sunspec/core/device.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index 24ee138..a234b65 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -768,7 +768,7 @@ class Model(object):
                         if point.sf_point is None:
                             # ### what state should model be left in on exception
                             raise SunSpecError('Unable to resolve scale factor point %s for point %s in model %s' %
-                                point.point_type.sf, point.point_type.pid, self.id)
+                                (point.point_type.sf, point.point_type.id, self.id))
 
                 block_addr += block_len
                 block_type = self.model_type.repeating_block
-- 
2.43.0


From c66105271c3caa722fc86e0d9809193f7916b22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 14/71] fix: treat uint64 points as unsigned

---
 sunspec/core/suns.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/suns.py b/sunspec/core/suns.py
index 3204939..db2c5dd 100644
--- a/sunspec/core/suns.py
+++ b/sunspec/core/suns.py
@@ -182,7 +182,7 @@ suns_point_type_info = {
     SUNS_TYPE_BITFIELD32: (2, suns_is_impl_bitfield32, util.data_to_u32, util.u32_to_data, suns_to_long, 0),
     SUNS_TYPE_IPADDR: (2, suns_is_impl_ipaddr, util.data_to_u32, util.u32_to_data, suns_to_long, 0),
     SUNS_TYPE_INT64: (4, suns_is_impl_int64, util.data_to_s64, util.s64_to_data, suns_to_long, 0),
-    SUNS_TYPE_UINT64: (4, suns_is_impl_uint64, util.data_to_s64, util.s64_to_data, suns_to_long, 0),
+    SUNS_TYPE_UINT64: (4, suns_is_impl_uint64, util.data_to_u64, util.u64_to_data, suns_to_long, 0),
     SUNS_TYPE_ACC64: (4, suns_is_impl_acc64, util.data_to_s64, util.s64_to_data, suns_to_long, 0),
     SUNS_TYPE_IPV6ADDR: (8, suns_is_impl_ipv6addr, util.data_to_ipv6addr, util.ipv6addr_to_data, suns_to_str, 0),
     SUNS_TYPE_FLOAT32: (2, suns_is_impl_float32, util.data_to_float, util.float_to_data32, suns_to_float, 0),
-- 
2.43.0


From fbd56044ca080e638d19715b0212ffedc117c2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:12 +0000
Subject: [PATCH 15/71] fix: encode short strings in exactly the requested
 length

---
 sunspec/core/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sunspec/core/util.py b/sunspec/core/util.py
index 2c59734..1c4cc12 100644
--- a/sunspec/core/util.py
+++ b/sunspec/core/util.py
@@ -141,11 +141,12 @@ def float_to_data(f, len=None):
     return struct.pack('>d', f)
 
 def str_to_data(s, slen=None):
+    pad = slen is None
     if slen is None:
         slen = len(s)
     if sys.version_info > (3,):
         s = bytes(s, 'latin-1')
-    if slen < 16:
+    if pad and slen < 16:
         s += b'\x00'
         slen += 1
     return struct.pack(str(slen) + 's', s)
-- 
2.43.0


From 994f3e0a0da6f7e595e7def21a8c42691d47b2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:15 +0000
Subject: [PATCH 16/71] fix: eui48 points can be written

---
 sunspec/core/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/util.py b/sunspec/core/util.py
index 1c4cc12..5415bbb 100644
--- a/sunspec/core/util.py
+++ b/sunspec/core/util.py
@@ -151,7 +151,7 @@ def str_to_data(s, slen=None):
         slen += 1
     return struct.pack(str(slen) + 's', s)
 
-def eui48_to_data(eui48):
+def eui48_to_data(eui48, slen=None):
     return (b'\x00\x00' + base64.b16decode(eui48.replace(':', '')))
 
 
-- 
2.43.0


From 20ea4094eddd142efc1237ce6967988533d51825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:17 +0000
Subject: [PATCH 17/71] fix: search plain directories listed after a zip
 archive

---
 sunspec/core/util.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sunspec/core/util.py b/sunspec/core/util.py
index 5415bbb..376acf4 100644
--- a/sunspec/core/util.py
+++ b/sunspec/core/util.py
@@ -211,6 +211,7 @@ class PathList(object):
         # traverse path list until first instance of file found
         for p in self.path:
             file_path = ''
+            zip_file_path = ''
             element_list = p.split(os.sep)
             sep = os.sep
 
-- 
2.43.0


From 5a6cc01ea4799c9a375405fbe1547a643b926d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:20 +0000
Subject: [PATCH 18/71] fix: compare point definitions by content, including
 absent attributes

---
 sunspec/core/device.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index a234b65..053cb0d 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -1432,11 +1432,14 @@ class PointType(object):
         if point_type is None:
             return "PointType '%s' is None" % (str(self.id))
         if len(self.__dict__) != len(point_type.__dict__):
-            return "PointType '%s' attribute count not equal': %s  %s" % (str(self.id))
+            return "PointType '%s' attribute count not equal" % (str(self.id))
         for k, v in self.__dict__.items():
             if k != 'block_type':
                 value = point_type.__dict__.get(k)
-                if v is not None and value is not None:
+                if k == 'symbols':
+                    v = [vars(s) for s in v]
+                    value = [vars(s) for s in value or []]
+                if v is not None or value is not None:
                     if value is None or v != value:
                         return "PointType '{}' attribute '{}' not equal: {}  {}".format(str(self.id), str(k), str(v), str(value))
 
-- 
2.43.0


From de8c2490f6451305fb2289972204cb624e7c2b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:22 +0000
Subject: [PATCH 19/71] fix: compare the names of model and block definitions

---
 sunspec/core/device.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index 053cb0d..94674a7 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -1082,6 +1082,8 @@ class ModelType(object):
             return "ModelType is None"
         if self.id != model_type.id:
             return "ModelType attribute 'id' not equal: {}  {}".format(str(self.id), str(model_type.id))
+        if self.name != model_type.name:
+            return "ModelType attribute 'name' not equal: {}  {}".format(str(self.name), str(model_type.name))
         if self.len != model_type.len:
             return "ModelType attribute 'len' not equal: {}  {}".format(str(self.len), str(model_type.len))
         if self.label != model_type.label:
@@ -1204,6 +1206,8 @@ class BlockType(object):
             return "BlockType '%s' is none" % (str(self.type))
         if self.type != block_type.type:
             return "BlockType attribute 'type' not equal: {}  {}".format(str(self.type), str(block_type.type))
+        if self.name != block_type.name:
+            return "BlockType attribute 'name' not equal: {}  {}".format(str(self.name), str(block_type.name))
         if self.len != block_type.len:
             return "BlockType attribute 'len' not equal: {}  {}".format(str(self.len), str(block_type.len))
         if len(self.points) != len(block_type.points):
-- 
2.43.0


From 25d8286e1921749ee98c23f8c602bed6e4ded536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:24 +0000
Subject: [PATCH 20/71] fix: compare devices containing models without a
 definition

---
 sunspec/core/device.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index 94674a7..0ab0762 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -865,16 +865,21 @@ class Model(object):
                 Model to compare.
         """
 
+        if self.id != model.id:
+            return 'model {} not equal - model ids: {}  {}'.format(self.id, self.id, model.id)
         if len(self.blocks) != len(model.blocks):
-            return 'model %s not equal - block counts: %d  %d' % (self.model_type.id, len(self.blocks), len(model.blocks))
-        s = self.model_type.not_equal(model.model_type)
+            return 'model %s not equal - block counts: %d  %d' % (self.id, len(self.blocks), len(model.blocks))
+        if self.model_type is None:
+            s = model.model_type is not None and 'ModelType is None'
+        else:
+            s = self.model_type.not_equal(model.model_type)
         if s:
-            return 'model {} not equal - model id not equal: {}'.format(self.model_type.id, s)
+            return 'model {} not equal - model id not equal: {}'.format(self.id, s)
 
         for i in range(len(self.blocks)):
             s = self.blocks[i].not_equal(model.blocks[i])
             if s:
-                return 'model {} not equal - {}'.format(self.model_type.id, s)
+                return 'model {} not equal - {}'.format(self.id, s)
         return False
 
     def __str__(self):
-- 
2.43.0


From acee2d6572e4e226d42a7b5d6d0ac09072b3bcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:27 +0000
Subject: [PATCH 21/71] fix: report an unparsable model definition as
 SunSpecError

---
 sunspec/core/device.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index 0ab0762..191a544 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -926,10 +926,9 @@ def model_type_get(model_id):
                     raise SunSpecError('Error loading model {} at {}: {}'.format(model_id, filename, str(e)))
 
         if smdx_data:
-            root = ET.fromstring(smdx_data)
-
             # load model type
             try:
+                root = ET.fromstring(smdx_data)
                 model_type = ModelType()
                 model_type.from_smdx(root)
                 model_types[model_type.id] = model_type
-- 
2.43.0


From 42ffd780b4c38486e29e730d7d6953332eb1cab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:29 +0000
Subject: [PATCH 22/71] fix: number the instances of a model within a device

---
 sunspec/core/client.py | 3 ++-
 sunspec/core/device.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index 4962a9a..2230db5 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -278,7 +278,8 @@ class ClientDevice(device.Device):
                     # print('model_id = %s  model_len = %s' % (model_id, model_len))
 
                     # move address past model id and length
-                    model = ClientModel(self, model_id, addr + 2, model_len)
+                    index = len(self.models.get(model_id, [])) + 1
+                    model = ClientModel(self, model_id, addr + 2, model_len, index)
                     # print('loading model %s at %d' % (model_id, addr + 2))
                     try:
                         model.load()
diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index 191a544..2d26110 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -183,7 +183,8 @@ class Device(object):
                     model_len = int(model_len)
 
                 # move address past model id and length (even though address is not real in the case)
-                model = Model(self, model_id, addr + 2, model_len)
+                index = len(self.models.get(int(model_id), [])) + 1
+                model = Model(self, model_id, addr + 2, model_len, index)
                 try:
                     model.load()
                 except Exception as e:
-- 
2.43.0


From 989789ad038bb09a5cf075a29fb9316438b64028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:55 +0000
Subject: [PATCH 23/71] fix: TCP writes longer than one request

---
 sunspec/core/modbus/client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 7509187..11b4d8e 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -943,8 +943,8 @@ class ModbusClientDeviceTCP(object):
                     write_count = self.max_count
                 else:
                     write_count = count
-                    start = (write_offset * 2)
-                    end = int((write_offset + write_count) * 2)
+                start = int(write_offset * 2)
+                end = int((write_offset + write_count) * 2)
                 self._write(addr + write_offset, data[start:end])
                 count -= write_count
                 write_offset += write_count
-- 
2.43.0


From 53d681e1440ae17bffae4faec5c184ad16e2cde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:58 +0000
Subject: [PATCH 24/71] fix: limit write requests to the 123 registers Modbus
 allows

---
 sunspec/core/modbus/client.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 11b4d8e..904d05e 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -39,6 +39,7 @@ PARITY_NONE = 'N'
 PARITY_EVEN = 'E'
 
 REQ_COUNT_MAX = 125
+WRITE_REQ_COUNT_MAX = 123
 
 FUNC_READ_HOLDING = 3
 FUNC_READ_INPUT = 4
@@ -431,6 +432,7 @@ class ModbusClientRTU(object):
         write_count = 0
         write_offset = 0
         count = len(data)/2
+        max_count = min(max_count, WRITE_REQ_COUNT_MAX)
 
         if self.serial is not None:
             while (count > 0):
@@ -932,6 +934,7 @@ class ModbusClientDeviceTCP(object):
         write_offset = 0
         local_connect = False
         count = len(data)/2
+        max_count = min(self.max_count, WRITE_REQ_COUNT_MAX)
 
         if self.socket is None:
             local_connect = True
@@ -939,8 +942,8 @@ class ModbusClientDeviceTCP(object):
 
         try:
             while (count > 0):
-                if count > self.max_count:
-                    write_count = self.max_count
+                if count > max_count:
+                    write_count = max_count
                 else:
                     write_count = count
                 start = int(write_offset * 2)
-- 
2.43.0


From 2b9a0b98884ff3f8f31c683adbc9002ff9b26f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:00 +0000
Subject: [PATCH 25/71] fix: do not keep a socket that failed to connect

---
 sunspec/core/modbus/client.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 904d05e..1d0c90a 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -729,6 +729,7 @@ class ModbusClientDeviceTCP(object):
 
             self.socket.connect((self.ipaddr, self.ipport))
         except Exception as e:
+            self.disconnect()
             raise ModbusClientError('Connection error: %s' % str(e))
 
     def disconnect(self):
-- 
2.43.0


From 05d015fb3dc9988e661d8eed6a4de6cff1cde0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:03 +0000
Subject: [PATCH 26/71] fix: report socket receive errors as modbus client
 errors

---
 sunspec/core/modbus/client.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 1d0c90a..e934afd 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -764,7 +764,12 @@ class ModbusClientDeviceTCP(object):
             raise ModbusClientError('Socket write error: %s' % str(e))
 
         while len_remaining > 0:
-            c = self.socket.recv(len_remaining)
+            try:
+                c = self.socket.recv(len_remaining)
+            except socket.timeout:
+                raise ModbusClientTimeout('Response timeout')
+            except Exception as e:
+                raise ModbusClientError('Socket read error: %s' % str(e))
             # print('c = {0}'.format(c))
             len_read = len(c);
             if len_read > 0:
@@ -879,7 +884,12 @@ class ModbusClientDeviceTCP(object):
             raise ModbusClientError('Socket write error: %s' % str(e))
 
         while len_remaining > 0:
-            c = self.socket.recv(len_remaining)
+            try:
+                c = self.socket.recv(len_remaining)
+            except socket.timeout:
+                raise ModbusClientTimeout('Response timeout')
+            except Exception as e:
+                raise ModbusClientError('Socket read error: %s' % str(e))
             # print('c = {0}'.format(c))
             len_read = len(c);
             if len_read > 0:
-- 
2.43.0


From 594569027f6d9aa32c9b4e1d68af3b0ead4b1d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:06 +0000
Subject: [PATCH 27/71] fix: report serial port errors as modbus client errors

---
 sunspec/core/modbus/client.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index e934afd..9beed12 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -237,14 +237,17 @@ class ModbusClientRTU(object):
                 s += '%02X' % (ord(c))
             trace_func(s)
 
-        self.serial.flushInput()
         try:
+            self.serial.flushInput()
             self.serial.write(req)
         except Exception as e:
             raise ModbusClientError('Serial write error: %s' % str(e))
 
         while len_remaining > 0:
-            c = self.serial.read(len_remaining)
+            try:
+                c = self.serial.read(len_remaining)
+            except Exception as e:
+                raise ModbusClientError('Serial read error: %s' % str(e))
             if type(c) == bytes and sys.version_info > (3,):
                 temp = ""
                 for i in c:
@@ -360,8 +363,8 @@ class ModbusClientRTU(object):
                 s += '%02X' % (ord(c))
             trace_func(s)
 
-        self.serial.flushInput()
         try:
+            self.serial.flushInput()
             if sys.version_info > (3,):
                 req = bytes(req, "latin-1")
             self.serial.write(req)
@@ -369,7 +372,10 @@ class ModbusClientRTU(object):
             raise ModbusClientError('Serial write error: %s' % str(e))
 
         while len_remaining > 0:
-            c = self.serial.read(len_remaining)
+            try:
+                c = self.serial.read(len_remaining)
+            except Exception as e:
+                raise ModbusClientError('Serial read error: %s' % str(e))
             if type(c) == bytes and sys.version_info > (3,):
                 temp = ""
                 for i in c:
-- 
2.43.0


From ef8a8b13073819e3990a0048bcd1a064a2f49cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:08 +0000
Subject: [PATCH 28/71] fix: treat an exception reply with code 0 as an
 exception

---
 sunspec/core/modbus/client.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 9beed12..397b1c4 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -277,7 +277,7 @@ class ModbusClientRTU(object):
         if not checkCRC(resp[:-2], crc):
             raise ModbusClientError('CRC error')
 
-        if except_code:
+        if except_code is not None:
             raise ModbusClientException('Modbus exception %d' % (except_code))
 
         return resp[3:-2]
@@ -405,7 +405,7 @@ class ModbusClientRTU(object):
         if not checkCRC(resp[:-2], crc):
             raise ModbusClientError('CRC error')
 
-        if except_code:
+        if except_code is not None:
             raise ModbusClientException('Modbus exception: %d' % (except_code))
         else:
             if sys.version_info > (3,):
@@ -805,7 +805,7 @@ class ModbusClientDeviceTCP(object):
                 s += '%02X' % (ord(c))
             self.trace_func(s)
 
-        if except_code:
+        if except_code is not None:
             raise ModbusClientException('Modbus exception %d' % (except_code))
 
         return resp[(TCP_HDR_LEN + 3):]
@@ -931,7 +931,7 @@ class ModbusClientDeviceTCP(object):
                 s += '%02X' % (ord(c))
             self.trace_func(s)
 
-        if except_code:
+        if except_code is not None:
             raise ModbusClientException('Modbus exception: %d' % (except_code))
 
     def write(self, addr, data):
-- 
2.43.0


From 54d6f12dc81159edbe701e235299063ec0889cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:11 +0000
Subject: [PATCH 29/71] fix: verify that a reply answers the request it is
 taken for

---
 sunspec/core/modbus/client.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 397b1c4..26603ba 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -280,6 +280,9 @@ class ModbusClientRTU(object):
         if except_code is not None:
             raise ModbusClientException('Modbus exception %d' % (except_code))
 
+        if ord(resp[0]) != int(slave_id) or ord(resp[1]) != op or ord(resp[2]) != count * 2:
+            raise ModbusClientError('Modbus response format error')
+
         return resp[3:-2]
 
     def read(self, slave_id, addr, count, op=FUNC_READ_HOLDING, trace_func=None, max_count=REQ_COUNT_MAX):
@@ -808,6 +811,11 @@ class ModbusClientDeviceTCP(object):
         if except_code is not None:
             raise ModbusClientException('Modbus exception %d' % (except_code))
 
+        if (resp[:TCP_HDR_O_LEN] != '\0' * TCP_HDR_O_LEN or len(resp) != TCP_HDR_LEN + 3 + count * 2 or
+                ord(resp[TCP_HDR_LEN]) != int(self.slave_id) or ord(resp[TCP_HDR_LEN + 1]) != op or
+                ord(resp[TCP_HDR_LEN + 2]) != count * 2 or data_len[0] != len(resp) - TCP_HDR_LEN):
+            raise ModbusClientError('Modbus response format error')
+
         return resp[(TCP_HDR_LEN + 3):]
 
     def read(self, addr, count, op=FUNC_READ_HOLDING):
@@ -934,6 +942,10 @@ class ModbusClientDeviceTCP(object):
         if except_code is not None:
             raise ModbusClientException('Modbus exception: %d' % (except_code))
 
+        expected = struct.pack('>HHHBBHH', 0, 0, TCP_READ_REQ_LEN, int(self.slave_id), func, int(addr), write_count)
+        if [ord(c) for c in resp] != list(bytearray(expected)):
+            raise ModbusClientError('Modbus response format error')
+
     def write(self, addr, data):
         """ Write Modbus device registers. If no connection exists to the
         destination, one is created and disconnected at the end of the request.
-- 
2.43.0


From 0d88bcb54bd9fab1eb2b2630b700850e12d55e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:47 +0000
Subject: [PATCH 30/71] fix: drop a TCP connection on which a request failed

---
 sunspec/core/modbus/client.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 26603ba..6be26ef 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -861,6 +861,12 @@ class ModbusClientDeviceTCP(object):
                     read_offset += read_count
                 else:
                     break
+        except ModbusClientException:
+            raise
+        except Exception:
+            # a late reply must not be taken for the reply to a later request
+            self.disconnect()
+            raise
         finally:
             if local_connect:
                 self.disconnect()
@@ -980,6 +986,12 @@ class ModbusClientDeviceTCP(object):
                 self._write(addr + write_offset, data[start:end])
                 count -= write_count
                 write_offset += write_count
+        except ModbusClientException:
+            raise
+        except Exception:
+            # a late reply must not be taken for the reply to a later request
+            self.disconnect()
+            raise
         finally:
             if local_connect:
                 self.disconnect()
-- 
2.43.0


From 90a404ca33aa4914f2007d32794951acbf659f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:49 +0000
Subject: [PATCH 31/71] fix: trace binary requests

---
 sunspec/core/modbus/client.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 6be26ef..16907d1 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -233,8 +233,8 @@ class ModbusClientRTU(object):
 
         if trace_func:
             s = '{}:{}[addr={}] ->'.format(self.name, str(slave_id), addr)
-            for c in req:
-                s += '%02X' % (ord(c))
+            for c in bytearray(req):
+                s += '%02X' % c
             trace_func(s)
 
         try:
@@ -763,8 +763,8 @@ class ModbusClientDeviceTCP(object):
 
         if self.trace_func:
             s = '{}:{}:{}[addr={}] ->'.format(self.ipaddr, str(self.ipport), str(self.slave_id), addr)
-            for c in req:
-                s += '%02X' % (ord(c))
+            for c in bytearray(req):
+                s += '%02X' % c
             self.trace_func(s)
 
         try:
@@ -894,8 +894,8 @@ class ModbusClientDeviceTCP(object):
 
         if self.trace_func:
             s = '{}:{}:{}[addr={}] ->'.format(self.ipaddr, str(self.ipport), str(self.slave_id), addr)
-            for c in req:
-                s += '%02X' % (ord(c))
+            for c in bytearray(req):
+                s += '%02X' % c
             self.trace_func(s)
 
         try:
-- 
2.43.0


From b45d483ecf290ccdee3cee0225f5415b6ee1db47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:51 +0000
Subject: [PATCH 32/71] fix: print the low level trace when tracing is enabled

---
 sunspec/core/client.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index 2230db5..de96a0d 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -41,6 +41,9 @@ PARITY_EVEN = modbus.PARITY_EVEN
 class SunSpecClientError(SunSpecError):
     pass
 
+def _trace_print(s):
+    print(s)
+
 class ClientDevice(device.Device):
 
     """ClientDevice
@@ -153,6 +156,10 @@ class ClientDevice(device.Device):
         self.retry_count = 2
         self.base_addr_list = [40000, 0, 50000]
 
+        # modbus devices take a trace function
+        if trace and not callable(trace):
+            trace = _trace_print
+
         try:
             if device_type == RTU:
                 self.modbus_device = modbus.ModbusClientDeviceRTU(slave_id, name, baudrate, parity, timeout, self, trace)
-- 
2.43.0


From 6e26eab52fc9899342189bb9210038c2992f9718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:53 +0000
Subject: [PATCH 33/71] fix: report errors of mapped devices as
 SunSpecClientError

---
 sunspec/core/client.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index de96a0d..5840c91 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -26,6 +26,7 @@ import time
 import struct
 import sys
 import sunspec.core.modbus.client as modbus
+import sunspec.core.modbus.mbmap as mbmap
 import sunspec.core.device as device
 import sunspec.core.util as util
 import sunspec.core.suns as suns
@@ -172,7 +173,7 @@ class ClientDevice(device.Device):
                     if self.modbus_device is not None:
                         self.modbus_device.close()
                     raise SunSpecClientError('Map file required for mapped device')
-        except modbus.ModbusClientError as e:
+        except (modbus.ModbusClientError, mbmap.ModbusMapError) as e:
             if self.modbus_device is not None:
                 self.modbus_device.close()
             raise SunSpecClientError('Modbus error: %s' % str(e))
@@ -202,7 +203,7 @@ class ClientDevice(device.Device):
                 return self.modbus_device.read(addr, count)
             else:
                 raise SunSpecClientError('No modbus device set for SunSpec device')
-        except modbus.ModbusClientError as e:
+        except (modbus.ModbusClientError, mbmap.ModbusMapError) as e:
             raise SunSpecClientError('Modbus read error: %s' % str(e))
 
     def write(self, addr, data):
@@ -222,7 +223,7 @@ class ClientDevice(device.Device):
                 return self.modbus_device.write(addr, data)
             else:
                 raise SunSpecClientError('No modbus device set for SunSpec device')
-        except modbus.ModbusClientError as e:
+        except (modbus.ModbusClientError, mbmap.ModbusMapError) as e:
             raise SunSpecClientError('Modbus write error: %s' % str(e))
 
     def read_points(self):
-- 
2.43.0


From 195d022d438cef24ef9073877c850cec02aad22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:55 +0000
Subject: [PATCH 34/71] fix: a failing scan raises SunSpecClientError and
 releases its connection

---
 sunspec/core/client.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index 5840c91..49f0234 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -240,16 +240,27 @@ class ClientDevice(device.Device):
         SunSpec model definitions.
         """
 
-        error = ''
-
         connect = False
         if self.modbus_device and type(self.modbus_device) == modbus.ModbusClientDeviceTCP:
-            self.modbus_device.connect()
+            try:
+                self.modbus_device.connect()
+            except modbus.ModbusClientError as e:
+                raise SunSpecClientError('Modbus error: %s' % str(e))
             connect = True
 
-            if delay is not None:
+        try:
+            if connect and delay is not None:
                 time.sleep(delay)
 
+            self._scan(progress, delay)
+        finally:
+            if connect:
+                self.modbus_device.disconnect()
+
+    def _scan(self, progress=None, delay=None):
+
+        error = ''
+
         if self.base_addr is None:
             for addr in self.base_addr_list:
                 # print('trying base address %s' % (addr))
@@ -312,9 +323,6 @@ class ClientDevice(device.Device):
                 error = 'Unknown error'
             raise SunSpecClientError(error)
 
-        if connect:
-            self.modbus_device.disconnect()
-
 class ClientModel(device.Model):
     """A derived class based on :const:`sunspec.core.device.Model`. It adds
     Modbus device access capability to the model base class.
-- 
2.43.0


From f130e9780b4981d48c5c4f67960d506acd06f667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:57 +0000
Subject: [PATCH 35/71] fix: a device can be scanned again

---
 sunspec/core/client.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index 49f0234..761991c 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -278,8 +278,14 @@ class ClientDevice(device.Device):
 
                 if delay is not None:
                     time.sleep(delay)
+        else:
+            data = self.read(self.base_addr, 3)
+            if data[:4] != b'SunS':
+                raise SunSpecClientError('Device responded - not SunSpec register map')
 
         if self.base_addr is not None:
+            self.models_list = []
+            self.models = {}
             # print('base address = %s' % (self.base_addr))
             model_id = util.data_to_u16(data[4:6])
             addr = self.base_addr + 2
-- 
2.43.0


From 1acb0b43d7b099083ebfadf02929582dfafbc4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:14 +0000
Subject: [PATCH 36/71] fix: points stay modified until the device acknowledged
 them

---
 sunspec/core/client.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index 761991c..ceb1844 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -441,6 +441,7 @@ class ClientModel(device.Model):
         addr = None
         next_addr = None
         data = b''
+        pending = []
 
         for block in self.blocks:
             for point in block.points_list:
@@ -454,13 +455,19 @@ class ClientModel(device.Model):
                     else:
                         if point_addr != next_addr:
                             block.model.device.write(addr, data)
+                            for p in pending:
+                                p.dirty = False
+                            pending = []
                             addr = point_addr
                             data = b''
                     next_addr = point_addr + point_len
                     data += point_data
-                    point.dirty = False
+                    pending.append(point)
             if addr is not None:
                 block.model.device.write(addr, data)
+                for p in pending:
+                    p.dirty = False
+                pending = []
                 addr = None
 
 class ClientBlock(device.Block):
-- 
2.43.0


From 5028308b27b9406a6ace15038728a978ec54b189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:43 +0000
Subject: [PATCH 37/71] fix: closing an RTU device twice does not affect a
 later device

---
 sunspec/core/modbus/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 16907d1..96b6add 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -524,7 +524,8 @@ class ModbusClientDeviceRTU(object):
         """Close the device. Called when device is not longer in use.
         """
 
-        if self.client:
+        # only release the client once, another device may be using the slave id
+        if self.client and self.client.devices.get(self.slave_id) is self:
             self.client.remove_device(self.slave_id)
 
     def read(self, addr, count, op=FUNC_READ_HOLDING):
-- 
2.43.0


From 240fdc75fe13b7e5e7e4dc9fe89cf0288b1fd3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:46 +0000
Subject: [PATCH 38/71] fix: report models without a definition in suns.py

---
 scripts/suns.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/suns.py b/scripts/suns.py
index 146e403..329c687 100644
--- a/scripts/suns.py
+++ b/scripts/suns.py
@@ -88,7 +88,7 @@ if __name__ == "__main__":
         sd.read()
 
         for model in sd.device.models_list:
-            if model.model_type.label:
+            if model.model_type is not None and model.model_type.label:
                 label = '%s (%s)' % (model.model_type.label, str(model.id))
             else:
                 label = '(%s)' % (str(model.id))
-- 
2.43.0


From 743e1ff0a593504ccb0d3e184a92e336f5d3104f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:48 +0000
Subject: [PATCH 39/71] fix: skip the verification of the server certificate
 when asked to

---
 sunspec/core/modbus/client.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 96b6add..b648b9a 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -734,6 +734,8 @@ class ModbusClientDeviceTCP(object):
                 context = ssl.create_default_context(ssl.Purpose.SERVER_AUTH, cafile=self.cafile)
                 context.load_cert_chain(certfile=self.certfile, keyfile=self.keyfile)
                 context.check_hostname = self.tls_verify
+                if not self.tls_verify:
+                    context.verify_mode = ssl.CERT_NONE
 
                 self.socket = context.wrap_socket(self.socket, server_side=False, server_hostname=self.ipaddr)
 
-- 
2.43.0


From 0094ae63e3f3620b38cad0cd1168ab607a560166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:50 +0000
Subject: [PATCH 40/71] fix: items of a scripting device can be set

---
 sunspec/core/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index ceb1844..7fe5a6a 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -892,7 +892,7 @@ class SunSpecClientDevice(object):
         return self.__dict__.get(key, None)
 
     def __setitem__(self, key, item):
-        self.__dict__.set(key, item)
+        self.__dict__[key] = item
 
     def __str__(self):
 
-- 
2.43.0


From c9422a7010e0a00481a57ea511e1236b62e1d15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:53 +0000
Subject: [PATCH 41/71] fix: publish generated model classes only when complete

---
 sunspec/core/client.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index 7fe5a6a..c3dea3e 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -712,9 +712,9 @@ def model_class_get(model_id):
     class_ = globals().get(class_name)
     if class_ is None:
         class_ = type(class_name, (SunSpecClientModelBase,), {'__init__' : class_init})
-        globals()[class_name] = class_
 
-    setattr(class_, 'points', [])
+    # the classes are shared, so they must be complete before being published
+    points = []
     model_type = None
     try:
         model_type = device.model_type_get(model_id)
@@ -724,20 +724,23 @@ def model_class_get(model_id):
         for point_type in model_type.fixed_block.points_list:
             if point_type.type != suns.SUNS_TYPE_SUNSSF and point_type.type != suns.SUNS_TYPE_PAD:
                 add_property(class_, point_type.id, None)
-                class_.points.append(point_type.id)
+                points.append(point_type.id)
             ### check for writable point?
 
         block_type = model_type.repeating_block
         if block_type is not None:
             block_class_name = class_name + 'Repeating'
             block_class = type(block_class_name, (SunSpecClientBlockBase,), {'__init__' : block_class_init})
-            globals()[block_class_name] = block_class
 
             setattr(block_class, 'points', [])
             for point_type in block_type.points_list:
                 if point_type.type != suns.SUNS_TYPE_SUNSSF and point_type.type != suns.SUNS_TYPE_PAD:
                     add_property(block_class, point_type.id, None)
                     block_class.points.append(point_type.id)
+            globals()[block_class_name] = block_class
+
+    setattr(class_, 'points', points)
+    globals()[class_name] = class_
 
     return class_
 
-- 
2.43.0


From 7942f194dcd8e16032d4e4170a2080a1fd3fd3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:18 +0000
Subject: [PATCH 42/71] fix: report a malformed register offset of a map as
 ModbusMapError

---
 sunspec/core/modbus/mbmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/modbus/mbmap.py b/sunspec/core/modbus/mbmap.py
index 61db8d7..f912d33 100644
--- a/sunspec/core/modbus/mbmap.py
+++ b/sunspec/core/modbus/mbmap.py
@@ -292,7 +292,7 @@ class ModbusMap(object):
                     last_regs.append(offset, rlen, data, access)
 
         except Exception as e:
-            raise ModbusMapError('Error loading %s (%s) at offset %d - %s' % (filename, pathlist, offset, str(e)))
+            raise ModbusMapError('Error loading %s (%s) at offset %s - %s' % (filename, pathlist, offset, str(e)))
 
     def to_xml(self, parent=None, no_data=False):
 
-- 
2.43.0


From 249ab25836fbbdf76d60244607af0340113cdd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:11 +0000
Subject: [PATCH 43/71] fix: refuse addresses of the wrong size instead of
 padding or truncating them

---
 sunspec/core/util.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sunspec/core/util.py b/sunspec/core/util.py
index 376acf4..e437937 100644
--- a/sunspec/core/util.py
+++ b/sunspec/core/util.py
@@ -126,6 +126,8 @@ def u64_to_data(u64, len=None):
 
 def ipv6addr_to_data(addr, slen=None):
     s = base64.b16decode(addr.replace(':', ''))
+    if len(s) != 16:
+        raise ValueError('Invalid IPv6 address: %s' % addr)
     if slen is None:
         slen = len(s)
     return struct.pack(str(slen) + 's', s)
@@ -152,7 +154,10 @@ def str_to_data(s, slen=None):
     return struct.pack(str(slen) + 's', s)
 
 def eui48_to_data(eui48, slen=None):
-    return (b'\x00\x00' + base64.b16decode(eui48.replace(':', '')))
+    s = base64.b16decode(eui48.replace(':', ''))
+    if len(s) != 6:
+        raise ValueError('Invalid EUI-48: %s' % eui48)
+    return b'\x00\x00' + s
 
 
 """ Simple XML pretty print support function
-- 
2.43.0


From 78de66677b7dddb30770ef28f480d8cfc6dacae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:58 +0000
Subject: [PATCH 44/71] fix: reject a model definition whose block length is
 not a number

---
 sunspec/core/device.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index 2d26110..a7495a5 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -1176,6 +1176,7 @@ class BlockType(object):
         self.len = element.attrib.get(smdx.SMDX_ATTR_LEN)
         if self.len is None:
             raise SunSpecError('Block len error')
+        self.len = int(self.len)
         self.name = element.attrib.get(smdx.SMDX_ATTR_NAME)
         if self.name is None:
             self.name = self.type
-- 
2.43.0


From dce729ea75e8f3487a70677bd5f074cbea897538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:00 +0000
Subject: [PATCH 45/71] fix: reject a definition document without a model

---
 sunspec/core/device.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index a7495a5..2f026fe 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -1038,6 +1038,9 @@ class ModelType(object):
             else:
                 raise SunSpecError('Unexpected smdx element: %s' % m.tag)
 
+        if self.id is None:
+            raise SunSpecError('No model definition found')
+
         for s in element.findall(smdx.SMDX_STRINGS):
             if s.attrib.get(smdx.SMDX_ATTR_ID) == str(self.id):
                 m = s.find(smdx.SMDX_MODEL)
-- 
2.43.0


From 3752583e8de5c4e3f7463a99e272821364f76685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:02 +0000
Subject: [PATCH 46/71] fix: keep symbols of equally named points in fixed and
 repeating block apart

---
 sunspec/core/device.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index 2f026fe..c8a77f2 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -1407,10 +1407,7 @@ class PointType(object):
                 self.notes = e.text
             elif e.tag == smdx.SMDX_SYMBOL:
                 sid = e.attrib.get(smdx.SMDX_ATTR_ID)
-                symbol = self.block_type.model_type.symbol_get(
-                    sid=sid,
-                    point_id=self.id,
-                )
+                symbol = self.symbol_get(sid)
                 if symbol is None:
                     symbol = Symbol()
                     symbol.from_smdx(e, strings)
@@ -1418,7 +1415,6 @@ class PointType(object):
                         symbol=symbol,
                         point_id=self.id,
                     )
-                if self.symbol_get(sid) is None:
                     self.symbols.append(symbol)
                 symbol.from_smdx(e, strings)
 
-- 
2.43.0


From 574d881d1de565d42e2fffaa55bb807c8fce8099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:05 +0000
Subject: [PATCH 47/71] fix: reject a repeating block without length instead of
 adding blocks forever

---
 sunspec/core/device.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index c8a77f2..b5da95d 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -780,6 +780,8 @@ class Model(object):
                 block_len = int(block_type.len)
                 if end_addr == block_end:
                     break
+                if block_len <= 0:
+                    raise SunSpecError('Repeating block without length in model %s' % self.id)
         else:
             raise SunSpecError('Unknown model type - id: %s' % str(self.id))
 
-- 
2.43.0


From cc2c056c00d057f32d4b733b11c9e759721bf6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:36 +0000
Subject: [PATCH 48/71] fix: devices with different definitions of a model do
 not share scripting classes

---
 sunspec/core/client.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index c3dea3e..b6b5bd2 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -581,15 +581,12 @@ class SunSpecClientModelBase(object):
         self.repeating_name = 'repeating'
 
         if len(model.blocks) > 1:
-            block_class_name = self.__class__.__name__ + 'Repeating'
             for block in model.blocks[1:]:
                 # set repeating block name and attribute if present
                 if block.block_type.name != self.repeating_name:
                     self.repeating_name = block.block_type.name
                     setattr(self, self.repeating_name, self.repeating)
-                # block_class_ = globals().get(block_class_name)
-                block_class = globals().get(block_class_name)
-                c = block_class(block, self.repeating_name)
+                c = self._repeating_class(block, self.repeating_name)
                 self.repeating.append(c)
 
     def _get_property(self, name):
@@ -708,12 +705,11 @@ def model_class_get(model_id):
     def block_class_init(self, block, name):
         SunSpecClientBlockBase.__init__(self, block, name)
 
+    # the definition may differ from the one of another device, so classes are not reused
     class_name = 'Model' + str(model_id)
-    class_ = globals().get(class_name)
-    if class_ is None:
-        class_ = type(class_name, (SunSpecClientModelBase,), {'__init__' : class_init})
+    class_ = type(class_name, (SunSpecClientModelBase,), {'__init__' : class_init})
 
-    # the classes are shared, so they must be complete before being published
+    # the classes must be complete before being published
     points = []
     model_type = None
     try:
@@ -737,6 +733,7 @@ def model_class_get(model_id):
                 if point_type.type != suns.SUNS_TYPE_SUNSSF and point_type.type != suns.SUNS_TYPE_PAD:
                     add_property(block_class, point_type.id, None)
                     block_class.points.append(point_type.id)
+            setattr(class_, '_repeating_class', block_class)
             globals()[block_class_name] = block_class
 
     setattr(class_, 'points', points)
-- 
2.43.0


From f489eb7ccc344d1fb43872811f5bfa2f2c4ad415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:59 +0000
Subject: [PATCH 49/71] fix: keep points of a block in offset order

---
 sunspec/core/device.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index b5da95d..e6afdba 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -1198,6 +1198,9 @@ class BlockType(object):
             self.points_list.append(pt)
             self.points[pt.id] = pt
 
+        # requests are split assuming offset order
+        self.points_list.sort(key=lambda pt: pt.offset)
+
     def not_equal(self, block_type):
         """ Determines if the specified block type instance is not equal based
         on all the block type attribute values including points.  If not equal,
-- 
2.43.0


From 5d1df7c7cb2a5406350b09948e9d02cf9117686a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:24 +0000
Subject: [PATCH 50/71] fix: connection timeout no longer replaces the request
 timeout

---
 sunspec/core/modbus/client.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index b648b9a..e4a6177 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -740,6 +740,7 @@ class ModbusClientDeviceTCP(object):
                 self.socket = context.wrap_socket(self.socket, server_side=False, server_hostname=self.ipaddr)
 
             self.socket.connect((self.ipaddr, self.ipport))
+            self.socket.settimeout(self.timeout)
         except Exception as e:
             self.disconnect()
             raise ModbusClientError('Connection error: %s' % str(e))
-- 
2.43.0


From 729dbe4210c4975d9788f62f44087f1320bb2d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:03 +0000
Subject: [PATCH 51/71] fix: suns.py reports an error when the device fails
 while it is read

---
 scripts/suns.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scripts/suns.py b/scripts/suns.py
index 329c687..35edae3 100644
--- a/scripts/suns.py
+++ b/scripts/suns.py
@@ -85,7 +85,11 @@ if __name__ == "__main__":
         print( '\nTimestamp: %s' % (time.strftime('%Y-%m-%dT%H:%M:%SZ', time.gmtime())))
 
         # read all models in the device
-        sd.read()
+        try:
+            sd.read()
+        except client.SunSpecClientError as e:
+            print('Error: %s' % (e))
+            sys.exit(1)
 
         for model in sd.device.models_list:
             if model.model_type is not None and model.model_type.label:
-- 
2.43.0


From b16d0e9665744f81794673cef3144b110fac74cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:35 +0000
Subject: [PATCH 52/71] fix: exception replies of another unit or function are
 not taken for the device's

---
 sunspec/core/modbus/client.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index e4a6177..1d27d70 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -278,6 +278,8 @@ class ModbusClientRTU(object):
             raise ModbusClientError('CRC error')
 
         if except_code is not None:
+            if ord(resp[0]) != int(slave_id) or ord(resp[1]) != (op | 0x80):
+                raise ModbusClientError('Modbus response format error')
             raise ModbusClientException('Modbus exception %d' % (except_code))
 
         if ord(resp[0]) != int(slave_id) or ord(resp[1]) != op or ord(resp[2]) != count * 2:
@@ -409,6 +411,8 @@ class ModbusClientRTU(object):
             raise ModbusClientError('CRC error')
 
         if except_code is not None:
+            if ord(resp[0]) != int(slave_id) or ord(resp[1]) != (func | 0x80):
+                raise ModbusClientError('Modbus response format error')
             raise ModbusClientException('Modbus exception: %d' % (except_code))
         else:
             if sys.version_info > (3,):
@@ -813,6 +817,8 @@ class ModbusClientDeviceTCP(object):
             self.trace_func(s)
 
         if except_code is not None:
+            if [ord(c) for c in resp[:-1]] != list(bytearray(struct.pack('>HHHBB', 0, 0, 3, int(self.slave_id), op | 0x80))):
+                raise ModbusClientError('Modbus response format error')
             raise ModbusClientException('Modbus exception %d' % (except_code))
 
         if (resp[:TCP_HDR_O_LEN] != '\0' * TCP_HDR_O_LEN or len(resp) != TCP_HDR_LEN + 3 + count * 2 or
@@ -950,6 +956,8 @@ class ModbusClientDeviceTCP(object):
             self.trace_func(s)
 
         if except_code is not None:
+            if [ord(c) for c in resp[:-1]] != list(bytearray(struct.pack('>HHHBB', 0, 0, 3, int(self.slave_id), func | 0x80))):
+                raise ModbusClientError('Modbus response format error')
             raise ModbusClientException('Modbus exception: %d' % (except_code))
 
         expected = struct.pack('>HHHBBHH', 0, 0, TCP_READ_REQ_LEN, int(self.slave_id), func, int(addr), write_count)
-- 
2.43.0


From 5cc2027cdb49b3ba7e13dd2b3fdf71b80ecf08ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:57 +0000
Subject: [PATCH 53/71] fix: documents read from the file system are decoded as
 they declare

---
 sunspec/core/device.py       | 4 ++--
 sunspec/core/modbus/mbmap.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index e6afdba..b3b8258 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -150,7 +150,7 @@ class Device(object):
 
                 # try local directory
                 if not pics_data:
-                    f = open(filename, 'r')
+                    f = open(filename, 'rb')
                     pics_data = f.read()
                     f.close()
 
@@ -922,7 +922,7 @@ def model_type_get(model_id):
 
             if os.path.exists(filename):
                 try:
-                    f = open(filename, 'r')
+                    f = open(filename, 'rb')
                     smdx_data = f.read()
                     f.close()
                 except Exception as e:
diff --git a/sunspec/core/modbus/mbmap.py b/sunspec/core/modbus/mbmap.py
index f912d33..ce80783 100644
--- a/sunspec/core/modbus/mbmap.py
+++ b/sunspec/core/modbus/mbmap.py
@@ -171,7 +171,7 @@ class ModbusMap(object):
                 if pathlist is not None:
                     map_data = pathlist.read(filename)
                 else:
-                    f = open(filename, 'r')
+                    f = open(filename, 'rb')
                     map_data = f.read()
                     f.close()
 
-- 
2.43.0


From 519513e7ffc0888ab139ed2db82affd1779615ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:46 +0000
Subject: [PATCH 54/71] fix: a device with several instances of a model is
 printed with all of them

---
 sunspec/core/client.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index b6b5bd2..6af8858 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -897,8 +897,11 @@ class SunSpecClientDevice(object):
     def __str__(self):
 
         s = ''
-        for model in self.models:
-            s += str(self[model])
+        for name in self.models:
+            model = self[name]
+            # more than one instance of a model is a list with the instances from index 1
+            for instance in (model[1:] if isinstance(model, list) else [model]):
+                s += str(instance)
 
         return s
 
-- 
2.43.0


From e9dd9fedc11604bad14a32f842a6705f51f2ffa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:54 +0000
Subject: [PATCH 55/71] fix: a PICS repeating block index below 1 is out of
 range

---
 sunspec/core/device.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index b3b8258..4455112 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -824,7 +824,7 @@ class Model(object):
                             block.from_pics(b)
                 else:
                     block_index = int(block_index)
-                    if len(self.blocks) < block_index:
+                    if block_index < 1 or block_index >= len(self.blocks):
                         raise SunSpecError('Block index out of range: %s' % (str(block_index)))
                     self.blocks[block_index].from_pics(b)
             else:
-- 
2.43.0


From 52fc998d7bbe3e17c972d21babb919eb0d70ac53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:50 +0000
Subject: [PATCH 56/71] fix: a map entry with more hex content than its length
 is rejected

---
 sunspec/core/modbus/mbmap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sunspec/core/modbus/mbmap.py b/sunspec/core/modbus/mbmap.py
index ce80783..e5b33f5 100644
--- a/sunspec/core/modbus/mbmap.py
+++ b/sunspec/core/modbus/mbmap.py
@@ -264,6 +264,8 @@ class ModbusMap(object):
                         raise ModbusMapError('Hex string content length must be a multiple of 4 bytes')
                     if rlen == 0:
                         rlen = text_len//4
+                    if text_len > rlen * 4:
+                        raise ModbusMapError('Hex string content exceeds length of %d registers' % (rlen))
                     text_index = 0
                     while text_index < text_len:
                         c = struct.pack('B', int(text[text_index:text_index + 2], 16))
-- 
2.43.0


From 0b07a7e3fc4a74442b8f3555f06aa746b2a81b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:52 +0000
Subject: [PATCH 57/71] fix: a hex map file that ends within a register is
 rejected

---
 sunspec/core/modbus/mbmap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sunspec/core/modbus/mbmap.py b/sunspec/core/modbus/mbmap.py
index e5b33f5..65074f8 100644
--- a/sunspec/core/modbus/mbmap.py
+++ b/sunspec/core/modbus/mbmap.py
@@ -140,6 +140,8 @@ class ModbusMap(object):
                             else:
                                 data += c
 
+            if len(data) % 2 != 0:
+                raise ModbusMapError('Data length not even number of bytes - data len: %d' % (len(data)))
             mmr = ModbusMapRegs(offset, len(data)//2, data, MBMAP_REGS_ACCESS_RW)
             self.regs.append(mmr)
             f.close()
-- 
2.43.0


From a8f21fa605e76d4bd94a961d43a5d66dea948190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:58 +0000
Subject: [PATCH 58/71] fix: hand a mapped client device to its Modbus device
 as ctx, not as max_count

---
 sunspec/core/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index 6af8858..9b3fcbd 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -168,7 +168,7 @@ class ClientDevice(device.Device):
                 self.modbus_device = modbus.ModbusClientDeviceTCP(slave_id, ipaddr, ipport, timeout, self, trace, tls, cafile, certfile, keyfile, insecure_skip_tls_verify)
             elif device_type == MAPPED:
                 if name is not None:
-                    self.modbus_device = modbus.ModbusClientDeviceMapped(slave_id, name, pathlist, self)
+                    self.modbus_device = modbus.ModbusClientDeviceMapped(slave_id, name, pathlist, ctx=self)
                 else:
                     if self.modbus_device is not None:
                         self.modbus_device.close()
-- 
2.43.0


From 417f3be00f4cf3df2733374218013b6019a0d04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:44 +0000
Subject: [PATCH 59/71] fix: a model the device reports as empty does not get
 the registers of the models after it

---
 sunspec/core/client.py | 3 ++-
 sunspec/core/device.py | 8 ++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index 9b3fcbd..df82b8d 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -364,7 +364,8 @@ class ClientModel(device.Model):
         the corresponding SunSpec model definition.
         """
 
-        device.Model.load(self, block_class=ClientBlock, point_class=ClientPoint)
+        # the length is the one the device reported, also when it is 0
+        device.Model.load(self, block_class=ClientBlock, point_class=ClientPoint, default_len=False)
 
     def read_points(self):
         """Read all points in the model from the physical device.
diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index 4455112..cb3583d 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -693,7 +693,7 @@ class Model(object):
         self.load_error = None
         self.read_blocks = []
 
-    def load(self, block_class=Block, point_class=Point):
+    def load(self, block_class=Block, point_class=Point, default_len=True):
         """Loads the model instance with blocks and points based on the SunSpec
         model type definition.
 
@@ -704,6 +704,10 @@ class Model(object):
 
             point_class :
                 Point class to use to create point instances.
+
+            default_len :
+                A model length of 0 stands for the length in the model type
+                definition.
         """
 
         last_read_addr = self.addr
@@ -712,7 +716,7 @@ class Model(object):
         self.model_type = model_type_get(self.id)
 
         if self.model_type is not None:
-            if self.len == 0:
+            if self.len == 0 and default_len:
                 self.len = self.model_type.len
             end_addr = self.addr + self.len
 
-- 
2.43.0


From 2141f7b6fca9c12d2cd5b98c44906769c3b77ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:35 +0000
Subject: [PATCH 60/71] fix: a request limit above the Modbus maximum does not
 make read requests larger than 125 registers

---
 sunspec/core/modbus/client.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 1d27d70..fac60cd 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -319,6 +319,7 @@ class ModbusClientRTU(object):
         resp = ''
         read_count = 0
         read_offset = 0
+        max_count = min(max_count, REQ_COUNT_MAX)
 
         if self.serial is not None:
             while (count > 0):
@@ -852,6 +853,7 @@ class ModbusClientDeviceTCP(object):
         read_count = 0
         read_offset = 0
         local_connect = False
+        max_count = min(self.max_count, REQ_COUNT_MAX)
 
         if self.socket is None:
             local_connect = True
@@ -859,8 +861,8 @@ class ModbusClientDeviceTCP(object):
 
         try:
             while (count > 0):
-                if count > self.max_count:
-                    read_count = self.max_count
+                if count > max_count:
+                    read_count = max_count
                 else:
                     read_count = count
                 data = self._read(addr + read_offset, read_count, op=op)
-- 
2.43.0


From 110b4c468e74767fb56b7888e465a0bca1a15a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:14 +0000
Subject: [PATCH 61/71] fix: drop a TCP connection on which a request was
 interrupted

---
 sunspec/core/modbus/client.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index fac60cd..91fb5ad 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -749,6 +749,9 @@ class ModbusClientDeviceTCP(object):
         except Exception as e:
             self.disconnect()
             raise ModbusClientError('Connection error: %s' % str(e))
+        except BaseException:
+            self.disconnect()
+            raise
 
     def disconnect(self):
         """Disconnect from TCP destination.
@@ -875,7 +878,7 @@ class ModbusClientDeviceTCP(object):
                     break
         except ModbusClientException:
             raise
-        except Exception:
+        except BaseException:
             # a late reply must not be taken for the reply to a later request
             self.disconnect()
             raise
@@ -1002,7 +1005,7 @@ class ModbusClientDeviceTCP(object):
                 write_offset += write_count
         except ModbusClientException:
             raise
-        except Exception:
+        except BaseException:
             # a late reply must not be taken for the reply to a later request
             self.disconnect()
             raise
-- 
2.43.0


From 50450343a29c131e947d4ad8935c18c6789c2dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:19 +0000
Subject: [PATCH 62/71] fix: an interrupted construction of a scripting device
 releases its port

---
 sunspec/core/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index df82b8d..048d1a0 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -870,7 +870,7 @@ class SunSpecClientDevice(object):
                 else:
                     setattr(self, name, model_class)
                     self.models.append(name)
-        except Exception as e:
+        except BaseException:
             if self.device is not None:
                 self.device.close()
             raise
-- 
2.43.0


From 534e8c9fa5b4d587989f3e6d0e6879825c36b194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:40 +0000
Subject: [PATCH 63/71] fix: reading points discards the modifications pending
 on them

---
 sunspec/core/client.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index 048d1a0..552040b 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -405,6 +405,8 @@ class ClientModel(device.Model):
                                 point.value_base = point.point_type.data_to(data[byte_offset:byte_offset + (int(point.point_type.len) * 2)])
                                 if not point.point_type.is_impl(point.value_base):
                                     point.value_base = None
+                                # the value is the device's again
+                                point.dirty = False
                             else:
                                 raise SunSpecClientError('No data_to function set for {} : {}'.format(pname, point.point_type))
 
@@ -424,6 +426,7 @@ class ClientModel(device.Model):
                                 else:
                                     point.value_base = None
                                     point.value_sf = None
+                                point.dirty = False
                             else:
                                 raise SunSpecClientError('No data_to function set for {} : {}'.format(pname, point.point_type))
 
-- 
2.43.0


From 2dcc975475136880d5521bfa7875e145c56ca0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:12 +0000
Subject: [PATCH 64/71] fix: a serial write to a unit id given as text was
 reported as failed after the device had applied it

---
 sunspec/core/modbus/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 91fb5ad..da50e41 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -419,7 +419,7 @@ class ModbusClientRTU(object):
             if sys.version_info > (3,):
                 resp = bytes(resp, 'latin-1')
             resp_slave_id, resp_func, resp_addr, resp_count, resp_crc = struct.unpack('>BBHHH', resp)
-            if resp_slave_id != slave_id or resp_func != func or resp_addr != addr or resp_count != count:
+            if resp_slave_id != int(slave_id) or resp_func != func or resp_addr != addr or resp_count != count:
                 raise ModbusClientError('Mobus response format error')
 
     def write(self, slave_id, addr, data, trace_func=None, max_count=REQ_COUNT_MAX):
-- 
2.43.0


From 8fc38eb09b284b190e73a08801236be2a69c72ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:59 +0000
Subject: [PATCH 65/71] fix: a serial port that fails to close stays registered
 and can never be used again

---
 sunspec/core/modbus/client.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index da50e41..674eb51 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -219,8 +219,10 @@ class ModbusClientRTU(object):
 
         # if no more devices using the client interface, close and remove the client
         if len(self.devices) == 0:
-            self.close()
-            modbus_rtu_client_remove(self.name)
+            try:
+                self.close()
+            finally:
+                modbus_rtu_client_remove(self.name)
 
     def _read(self, slave_id, addr, count, op=FUNC_READ_HOLDING, trace_func=None):
         resp = ''
-- 
2.43.0


From 2f5dae097930aff6448331b9e5fbb65c6b25d1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:59 +0000
Subject: [PATCH 66/71] fix: a connection that fails to close is used again

---
 sunspec/core/modbus/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 674eb51..c6fdd69 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -762,9 +762,10 @@ class ModbusClientDeviceTCP(object):
         try:
             if self.socket:
                 self.socket.close()
-            self.socket = None
         except Exception:
             pass
+        finally:
+            self.socket = None
 
     def _read(self, addr, count, op=FUNC_READ_HOLDING):
 
-- 
2.43.0


From c70c4666c7b3492ae7d5e48c3ce98e9ba60e5ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:45 +0000
Subject: [PATCH 67/71] fix: a device whose models run past the last register
 address ends scanning with struct.error

---
 sunspec/core/client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index 552040b..148e1d1 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -203,7 +203,7 @@ class ClientDevice(device.Device):
                 return self.modbus_device.read(addr, count)
             else:
                 raise SunSpecClientError('No modbus device set for SunSpec device')
-        except (modbus.ModbusClientError, mbmap.ModbusMapError) as e:
+        except (modbus.ModbusClientError, mbmap.ModbusMapError, struct.error) as e:
             raise SunSpecClientError('Modbus read error: %s' % str(e))
 
     def write(self, addr, data):
@@ -223,7 +223,7 @@ class ClientDevice(device.Device):
                 return self.modbus_device.write(addr, data)
             else:
                 raise SunSpecClientError('No modbus device set for SunSpec device')
-        except (modbus.ModbusClientError, mbmap.ModbusMapError) as e:
+        except (modbus.ModbusClientError, mbmap.ModbusMapError, struct.error) as e:
             raise SunSpecClientError('Modbus write error: %s' % str(e))
 
     def read_points(self):
-- 
2.43.0


From 99fe2a5758f13b8796fbf63a002d8b115bd10372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:50 +0000
Subject: [PATCH 68/71] fix: an absurd scale factor register makes reading
 values, printing and the command-line tool crash with OverflowError

---
 sunspec/core/device.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index cb3583d..3b9c23c 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -512,7 +512,11 @@ class Point(object):
     def value_getter(self):
 
         if self.value_sf and self.value_base is not None:
-            return self.value_base * math.pow(10, self.value_sf)
+            try:
+                return self.value_base * math.pow(10, self.value_sf)
+            except OverflowError:
+                # the scaled value is beyond the range of a float
+                return self.value_base and math.copysign(float('inf'), self.value_base)
         else:
             return self.value_base
 
-- 
2.43.0


From c3412b9b9e5563164327140bf6d75d1e00cfce4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:21 +0000
Subject: [PATCH 69/71] fix: line breaks, signs and prefixes inside the hex
 content of a map entry were taken for digits and loaded as other registers

---
 sunspec/core/modbus/mbmap.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/sunspec/core/modbus/mbmap.py b/sunspec/core/modbus/mbmap.py
index 65074f8..455f5a5 100644
--- a/sunspec/core/modbus/mbmap.py
+++ b/sunspec/core/modbus/mbmap.py
@@ -259,8 +259,8 @@ class ModbusMap(object):
                     data = struct.pack(str(rlen * 2) + 's', text)
                 elif rtype == MBMAP_REGS_TYPE_HEX_STRING:
                     if text:
-                        # remove any spaces
-                        text = text.replace(' ','')
+                        # remove any white space
+                        text = ''.join(text.split())
                     text_len = len(text)
                     if text_len % 4 != 0:
                         raise ModbusMapError('Hex string content length must be a multiple of 4 bytes')
@@ -268,19 +268,11 @@ class ModbusMap(object):
                         rlen = text_len//4
                     if text_len > rlen * 4:
                         raise ModbusMapError('Hex string content exceeds length of %d registers' % (rlen))
-                    text_index = 0
-                    while text_index < text_len:
-                        c = struct.pack('B', int(text[text_index:text_index + 2], 16))
-                        text_index += 2
-                        if data is None:
-                            data = c
-                        else:
-                            data += c
+                    # digits only: a sign or prefix is not part of the content
+                    data = bytes(bytearray.fromhex(text))
                     # fill remainder of string with nulls
                     padding_needed = 2 * int(rlen - text_len / 4)
                     if padding_needed > 0:
-                        if data is None:
-                            data = b''
                         data += struct.pack(str(padding_needed) + 's', b'')
                 else:
                     raise ModbusMapError('Unknown type at offset %d' % (offset))
-- 
2.43.0


From b21b3af3ccc7cf71a86ec42e6c00cb5976701477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:24 +0000
Subject: [PATCH 70/71] fix: writing an odd number of bytes over TCP or serial
 sent a malformed request

---
 sunspec/core/modbus/client.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index c6fdd69..7e2a363 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -450,6 +450,9 @@ class ModbusClientRTU(object):
         count = len(data)/2
         max_count = min(max_count, WRITE_REQ_COUNT_MAX)
 
+        if len(data) % 2 != 0:
+            raise ModbusClientError('Data length not even number of bytes - addr: %s  data len: %d' % (addr, len(data)))
+
         if self.serial is not None:
             while (count > 0):
                 if count > max_count:
@@ -991,6 +994,9 @@ class ModbusClientDeviceTCP(object):
         count = len(data)/2
         max_count = min(self.max_count, WRITE_REQ_COUNT_MAX)
 
+        if len(data) % 2 != 0:
+            raise ModbusClientError('Data length not even number of bytes - addr: %s  data len: %d' % (addr, len(data)))
+
         if self.socket is None:
             local_connect = True
             self.connect(self.timeout)
-- 
2.43.0


From bb748fb3d866e789055b653c95faf92702ce6b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:25 +0000
Subject: [PATCH 71/71] fix: an archive in a path list was not searched when
 written with a trailing slash

---
 sunspec/core/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sunspec/core/util.py b/sunspec/core/util.py
index e437937..d62cef5 100644
--- a/sunspec/core/util.py
+++ b/sunspec/core/util.py
@@ -221,6 +221,9 @@ class PathList(object):
             sep = os.sep
 
             for e in element_list:
+                if zip_file_path and e in ('', '.'):
+                    # names of zip members have no empty elements
+                    continue
                 if e == '':
                     file_path += sep
                 elif file_path and file_path != sep:
-- 
2.43.0

