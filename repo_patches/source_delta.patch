From dec7a50e8c682cfc9525c3fe8984de705d26110b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:19 +0000
Subject: [PATCH 01/44] fix: directory entry modify_time is stored in the entry

---
 src/aaf2/cfb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index c470ed4..5d34889 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -635,7 +635,7 @@ class DirEntry(object):
 
     @modify_time.setter
     def modify_time(self, value):
-        struct.pack_into(str('<Q'), bytes(self.data), 108, value)
+        struct.pack_into(str('<Q'), self.data, 108, value)
         self.mark_modified()
 
     @property
-- 
2.43.0


From a3ec5b5f057b4b3c87a7c9e9ffd80a1603538db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:19 +0000
Subject: [PATCH 02/44] fix: terminate new DIFAT sectors with ENDOFCHAIN

---
 src/aaf2/cfb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index 5d34889..a592693 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -1637,7 +1637,7 @@ class CompoundFileBinary(object):
             for i in range(self.sector_size // 4):
                 difat.append(FREESECT)
 
-            difat[-1] == ENDOFCHAIN
+            difat[-1] = ENDOFCHAIN
             self.difat.append(difat)
 
             for t, i, v in self.iter_difat():
-- 
2.43.0


From 8d77af414f9d1ad271cc84cd3df7d4a03b69c0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:19 +0000
Subject: [PATCH 03/44] fix: fixed arrays encode to exactly their byte size

---
 src/aaf2/types.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/aaf2/types.py b/src/aaf2/types.py
index 6a9c0aa..4df4cd9 100644
--- a/src/aaf2/types.py
+++ b/src/aaf2/types.py
@@ -367,16 +367,18 @@ class TypeDefFixedArray(TypeDef):
         byte_size = element_typedef.byte_size
         element_count = self.size
         result = b""
+        count = 0
 
         for i, item in enumerate(data):
             if i >= element_count:
                 raise AAFPropertyError("too many elements for fixed array: expected %d elements" % element_count)
                 break
             result += element_typedef.encode(item)
+            count += 1
 
         # zero out remaining bytes
-        if i < element_count:
-            bytes_left = (element_count - i) * byte_size
+        if count < element_count:
+            bytes_left = (element_count - count) * byte_size
             while bytes_left:
                 result += b'\0'
                 bytes_left -= 1
-- 
2.43.0


From 6e6f11b73e4ff04089057a20ea61085f66e3111f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:19 +0000
Subject: [PATCH 04/44] fix: copies of type definitions keep their type name

---
 src/aaf2/types.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/aaf2/types.py b/src/aaf2/types.py
index 4df4cd9..c96f8cf 100644
--- a/src/aaf2/types.py
+++ b/src/aaf2/types.py
@@ -42,7 +42,7 @@ class TypeDef(core.AAFObject):
         return self
 
     def copy(self, root=None):
-        return self.__class__(root or self.root, self.name, self.auid)
+        return self.__class__(root or self.root, self.type_name, self.auid)
 
     @property
     def unique_key(self):
@@ -89,7 +89,7 @@ class TypeDefInt(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefInt(root or self.root, self.name, self.auid, self.size, self.signed)
+        return TypeDefInt(root or self.root, self.type_name, self.auid, self.size, self.signed)
 
     @property
     def signed(self):
@@ -147,7 +147,7 @@ class TypeDefStrongRef(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefStrongRef(root or self.root, self.name, self.auid, self.ref_classdef.auid)
+        return TypeDefStrongRef(root or self.root, self.type_name, self.auid, self.ref_classdef.auid)
 
     @property
     def store_format(self):
@@ -175,7 +175,7 @@ class TypeDefWeakRef(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefWeakRef(root or self.root, self.name, self.auid, self.ref_classdef.auid, self.path)
+        return TypeDefWeakRef(root or self.root, self.type_name, self.auid, self.ref_classdef.auid, self.path)
 
     @property
     def store_format(self):
@@ -240,7 +240,7 @@ class TypeDefEnum(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefEnum(root or self.root, self.name, self.auid, self.element_typedef.auid, self.elements)
+        return TypeDefEnum(root or self.root, self.type_name, self.auid, self.element_typedef.auid, self.elements)
 
     @property
     def byte_size(self):
@@ -327,7 +327,7 @@ class TypeDefFixedArray(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefFixedArray(root or self.root, self.name, self.auid, self.element_typedef.auid, self.size)
+        return TypeDefFixedArray(root or self.root, self.type_name, self.auid, self.element_typedef.auid, self.size)
 
     @property
     def element_typedef(self):
@@ -400,7 +400,7 @@ class TypeDefVarArray(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefVarArray(root or self.root, self.name, self.auid, self.element_typedef.auid)
+        return TypeDefVarArray(root or self.root, self.type_name, self.auid, self.element_typedef.auid)
 
     @property
     def store_format(self):
@@ -480,7 +480,7 @@ class TypeDefSet(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefSet(root or self.root, self.name, self.auid, self.element_typedef)
+        return TypeDefSet(root or self.root, self.type_name, self.auid, self.element_typedef)
 
     @property
     def element_typedef(self):
@@ -542,7 +542,7 @@ class TypeDefString(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefString(root or self.root, self.name, self.auid, self.element_typedef.auid)
+        return TypeDefString(root or self.root, self.type_name, self.auid, self.element_typedef.auid)
 
     @property
     def element_typedef(self):
@@ -596,7 +596,7 @@ class TypeDefRecord(TypeDef):
     def copy(self, root=None):
         names = list(iter_utf16_array(self['MemberNames'].data))
         types = [typedef.auid for typedef in self['MemberTypes'].value]
-        return TypeDefRecord(root or self.root, self.name, self.auid, zip(names, types))
+        return TypeDefRecord(root or self.root, self.type_name, self.auid, zip(names, types))
 
     @property
     def member_names(self):
@@ -754,7 +754,7 @@ class TypeDefRename(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefRename(root or self.root, self.name, self.auid, self.renamed_typedef.auid)
+        return TypeDefRename(root or self.root, self.type_name, self.auid, self.renamed_typedef.auid)
 
     @property
     def renamed_typedef(self):
@@ -804,7 +804,7 @@ class TypeDefExtEnum(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefExtEnum(root or self.root, self.name, self.auid, self.elements)
+        return TypeDefExtEnum(root or self.root, self.type_name, self.auid, self.elements)
 
     def register_element(self, element_name, element_auid):
 
@@ -932,7 +932,7 @@ class TypeDefGenericCharacter(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefGenericCharacter(root or self.root, self.name, self.auid, self.size)
+        return TypeDefGenericCharacter(root or self.root, self.type_name, self.auid, self.size)
 
     @property
     def size(self):
-- 
2.43.0


From c49105b2fdae0234ce2539f3b1e36b8c417da9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:19 +0000
Subject: [PATCH 05/44] fix: copying set and weak reference type definitions

---
 src/aaf2/types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aaf2/types.py b/src/aaf2/types.py
index c96f8cf..22754d0 100644
--- a/src/aaf2/types.py
+++ b/src/aaf2/types.py
@@ -175,7 +175,7 @@ class TypeDefWeakRef(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefWeakRef(root or self.root, self.type_name, self.auid, self.ref_classdef.auid, self.path)
+        return TypeDefWeakRef(root or self.root, self.type_name, self.auid, self.ref_classdef.auid, self.target_set_path)
 
     @property
     def store_format(self):
@@ -480,7 +480,7 @@ class TypeDefSet(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefSet(root or self.root, self.type_name, self.auid, self.element_typedef)
+        return TypeDefSet(root or self.root, self.type_name, self.auid, self.element_typedef.auid)
 
     @property
     def element_typedef(self):
-- 
2.43.0


From 5df5c183f65295559b114ce826e70fba3669bb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:19 +0000
Subject: [PATCH 06/44] fix: register_classdef finds an already registered
 class by AUID

---
 src/aaf2/metadict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/metadict.py b/src/aaf2/metadict.py
index f16c4ed..11098fe 100644
--- a/src/aaf2/metadict.py
+++ b/src/aaf2/metadict.py
@@ -412,7 +412,7 @@ class MetaDictionary(core.AAFObject):
         if name in self.classdefs_by_name:
             c = self.classdefs_by_name[name]
         elif class_auid in self.classdefs_by_auid:
-            c = self.classdefs_by_name[class_auid]
+            c = self.classdefs_by_auid[class_auid]
         else:
             c = ClassDef(self.root, name, class_auid, parent_auid, concrete)
 
-- 
2.43.0


From 5505ac8dd867b338a5c72021871d547944ffa12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:19 +0000
Subject: [PATCH 07/44] fix: dynamic property ids never leave the 0x8000-0xFFFF
 range

---
 src/aaf2/metadict.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/aaf2/metadict.py b/src/aaf2/metadict.py
index 11098fe..68bd189 100644
--- a/src/aaf2/metadict.py
+++ b/src/aaf2/metadict.py
@@ -548,8 +548,9 @@ class MetaDictionary(core.AAFObject):
 
         while self.next_pid in self.local_pids:
             self.next_pid -= 1
-            if self.next_pid < 0x8000:
-                raise ValueError("ran out of local pids")
+
+        if self.next_pid < 0x8000:
+            raise ValueError("ran out of local pids")
 
         result = self.next_pid
         self.next_pid -= 1
-- 
2.43.0


From 242b51172e9ca06cf9b28e92df9f5a8c867de9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:19 +0000
Subject: [PATCH 08/44] fix: ClassDef equality returns its result

---
 src/aaf2/metadict.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/metadict.py b/src/aaf2/metadict.py
index 68bd189..14498ab 100644
--- a/src/aaf2/metadict.py
+++ b/src/aaf2/metadict.py
@@ -145,7 +145,9 @@ class ClassDef(core.AAFObject):
         return self
 
     def __eq__(self, other):
-        self.auid == other.auid
+        return isinstance(other, ClassDef) and self.auid == other.auid
+
+    __hash__ = core.AAFObject.__hash__
 
     @property
     def auid(self):
-- 
2.43.0


From e3aa0bb9d2477816e41976fb3b10f1dccd416eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:19 +0000
Subject: [PATCH 09/44] fix: copy of a strong reference vector after an element
 was removed

---
 src/aaf2/properties.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index a58dd70..9de42bc 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -426,13 +426,13 @@ class StrongRefVectorProperty(Property):
         if parent.root is self.parent.root:
             p.objects = {}
             p.references = list(self.references)
-            p.index_name = p.index_name
+            p.index_name = self.index_name
             p.next_free_key = self.next_free_key
             p.last_free_key = self.last_free_key
             p.data = self.data
 
             for i, value in enumerate(self):
-                ref = self.index_ref_name(self.references[i])
+                ref = self.index_ref_name(i)
                 dir_entry = None
                 if parent.dir:
                     dir_entry = parent.dir.get(ref)
-- 
2.43.0


From 7fa45268e29bcf85b1f259e31c9dd2cebb7b407f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:19 +0000
Subject: [PATCH 10/44] fix: copy of a weak reference keeps its key pid

---
 src/aaf2/properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 9de42bc..768cb0a 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -1010,7 +1010,7 @@ class WeakRefProperty(Property):
 
         if parent.root is self.parent.root:
             p.weakref_index = self.weakref_index
-            p.key_pid = self.pid
+            p.key_pid = self.key_pid
             p.key_size = self.key_size
             p.ref = self.ref
         else:
-- 
2.43.0


From 3d4a8b53870601b765530b41ae8da393ca47e6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:19 +0000
Subject: [PATCH 11/44] fix: weak references to class definitions are not
 registered twice on copy

---
 src/aaf2/properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 768cb0a..ac37e89 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -1022,7 +1022,7 @@ class WeakRefProperty(Property):
                 v = self.value
                 if self.ref_classdef.auid == CLASSDEF_AUID:
                     parent.root.metadict.register_external_classdef(v)
-                if self.ref_classdef.auid == TYPEDEF_AUID:
+                elif self.ref_classdef.auid == TYPEDEF_AUID:
                     parent.root.metadict.register_external_typedef(v)
                 else:
                     c = v.copy(root=parent.root, classdef_cache=cache)
-- 
2.43.0


From 57e2152681246db516a6c33af5352f5d72fb0f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:19 +0000
Subject: [PATCH 12/44] fix: strong reference vector insert and item assignment
 check their value

---
 src/aaf2/properties.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index ac37e89..551e60d 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -552,6 +552,8 @@ class StrongRefVectorProperty(Property):
         if value.dir:
             raise AAFAttachError("Object already attached")
 
+        assert self.ref_classdef.isinstance(value.classdef)
+
         obj = self.get(index, None)
         if obj:
             obj.detach()
@@ -604,8 +606,20 @@ class StrongRefVectorProperty(Property):
 
     @writeonly
     def insert(self, index, value):
+        index_name = self.index_name # sets self.data
         assert self.ref_classdef.isinstance(value.classdef)
 
+        if value.root is not self.parent.root:
+            raise AAFAttachError("Object is from a different root")
+
+        if value.dir:
+            raise AAFAttachError("Object already attached")
+
+        # same index semantics as list.insert
+        if index < 0:
+            index = max(0, len(self) + index)
+        index = min(index, len(self))
+
         self.references.insert(index, self.next_free_key)
 
         objects = {}
@@ -622,6 +636,7 @@ class StrongRefVectorProperty(Property):
             self.objects = weakref.WeakValueDictionary(objects)
         else:
             self.objects = objects
+        self.add_pid_entry()
         self.attach()
 
     @writeonly
-- 
2.43.0


From 5d00f2ae1c705d4f28a3515999f95148483c762d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:19 +0000
Subject: [PATCH 13/44] fix: changing a unique key to one that is taken is
 refused

---
 src/aaf2/properties.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 551e60d..992cbeb 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -871,6 +871,9 @@ class StrongRefSetProperty(Property):
         if obj is None:
             raise ValueError("invalid key: %s" % str(old_key))
 
+        if new_key != old_key and new_key in self.references:
+            raise ValueError("key already exists: %s" % str(new_key))
+
         # remove reference
         self.objects.pop(old_key)
         local_key = self.references.pop(old_key)
-- 
2.43.0


From 90f7ffd31e8edd610f2722020b1e2bcaf3505558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:19 +0000
Subject: [PATCH 14/44] fix: record member index names leave room for the index
 suffix

---
 src/aaf2/properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 992cbeb..96ed94a 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -1448,7 +1448,7 @@ def add_typedef_weakref_vector_property(parent, pid, property_name, values):
     p.key_pid = key_pid
     p.key_size = 16
 
-    p.index_name = mangle_name(property_name, pid, 32)
+    p.index_name = mangle_name(property_name, pid, 32-10)
     p.data = p.encode(p.index_name)
 
     p.references = [AUID(v) for v in values]
-- 
2.43.0


From 3261da4b155294e786884b08c90fcfdd8aa16fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:19 +0000
Subject: [PATCH 15/44] fix: Dictionary.update adds missing parameters of known
 operations

---
 src/aaf2/dictionary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/dictionary.py b/src/aaf2/dictionary.py
index 2655eb5..aee151b 100644
--- a/src/aaf2/dictionary.py
+++ b/src/aaf2/dictionary.py
@@ -278,4 +278,4 @@ class Dictionary(core.AAFObject):
                     for p in other_def.parameters:
                         param = self.lookup_parameterdef(p.auid)
                         if param.unique_key not in opdef.parameters:
-                            opdef.append(param)
+                            opdef.parameters.append(param)
-- 
2.43.0


From 72056aeea89896c1777c2769eedacba27dcfe91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:19 +0000
Subject: [PATCH 16/44] fix: OperationGroup.parameters can be assigned

---
 src/aaf2/components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/components.py b/src/aaf2/components.py
index 09fa719..5da1ca4 100644
--- a/src/aaf2/components.py
+++ b/src/aaf2/components.py
@@ -324,7 +324,7 @@ class OperationGroup(Segment):
 
     @parameters.setter
     def parameters(self, value):
-        self['Parameters'] = value
+        self['Parameters'].value = value
 
     @property
     def segments(self):
-- 
2.43.0


From 5a8a5341488800b92a603e9457276c4d98c8db65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:19 +0000
Subject: [PATCH 17/44] fix: new timeline slots take the first free slot id

---
 src/aaf2/mobs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/aaf2/mobs.py b/src/aaf2/mobs.py
index 8eb33cd..ee261b1 100644
--- a/src/aaf2/mobs.py
+++ b/src/aaf2/mobs.py
@@ -97,6 +97,7 @@ class Mob(core.AAFObject):
             for i, e in enumerate(slots + [None], start):
                 if i != e:
                     slot_id = i
+                    break
         elif slot_id in slots:
             raise ValueError("slot id: %d already exists" % slot_id)
 
-- 
2.43.0


From 189d5365c0aa6fb6ee105f971235759d64ba037e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:19 +0000
Subject: [PATCH 18/44] fix: length of a slot holding a nested scope

---
 src/aaf2/mobslots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/mobslots.py b/src/aaf2/mobslots.py
index 4220f29..674ded8 100644
--- a/src/aaf2/mobslots.py
+++ b/src/aaf2/mobslots.py
@@ -135,7 +135,7 @@ class TimelineMobSlot(MobSlot):
         elif isinstance(segment, components.NestedScope):
             length = 0
             for slot in segment.slots:
-                max(length, slot.length)
+                length = max(length, slot.length)
             return length
         else:
             return segment.length
-- 
2.43.0


From db978d0a967eb85331420786ece6e247904cbe96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:08 +0000
Subject: [PATCH 19/44] fix: bezier interpolation of knots at the same time

---
 src/aaf2/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/interpolation.py b/src/aaf2/interpolation.py
index 26b93d7..49567a8 100644
--- a/src/aaf2/interpolation.py
+++ b/src/aaf2/interpolation.py
@@ -152,7 +152,7 @@ def bezier_interpolate(p0, p1, p2, p3, x):
     # degenerate cases 1
     # p0 is after p3
     if p0[0] >= p3[0]:
-        return p[1]
+        return p0[1]
 
     # degenerate cases 2
     # p1 after p3 or before p0
-- 
2.43.0


From 271ba6416542442ee43a8bbc67a34f3dd0f08cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:35 +0000
Subject: [PATCH 20/44] fix: linking MXF files with an MPEG2 video descriptor

---
 src/aaf2/mxf.py | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/aaf2/mxf.py b/src/aaf2/mxf.py
index ee57fbd..3284db7 100644
--- a/src/aaf2/mxf.py
+++ b/src/aaf2/mxf.py
@@ -687,13 +687,6 @@ class MXFMPEG2VideoDescriptor(MXFCDCIDescriptor):
         # 060e2b34.04010103.04010202.01040300
         self.data['ResolutionID'] = 4076 #XDCAM HD 50Mbit
 
-        d['Length'].value = self.data.get('Length', 0)
-
-        # optional
-        for key in ('LinkedSlotID', ):
-            if key in self.data:
-                d[key].value = self.data[key]
-
         return super(MXFMPEG2VideoDescriptor, self).link()
 
 @register_mxf_class
-- 
2.43.0


From c520f7bb309827e12cdb3957deafd72a2cabd5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:35 +0000
Subject: [PATCH 21/44] fix: MXF base object create_aaf_instance takes self

---
 src/aaf2/mxf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/mxf.py b/src/aaf2/mxf.py
index 3284db7..deeb885 100644
--- a/src/aaf2/mxf.py
+++ b/src/aaf2/mxf.py
@@ -151,7 +151,7 @@ class MXFObject(object):
         self.data = {}
         self.root = None
 
-    def create_aaf_instance():
+    def create_aaf_instance(self):
         pass
 
     def read_tag(self, tag, data):
-- 
2.43.0


From ed48d7d03ae9cea9e829851572b7104d7d8d3871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:42 +0000
Subject: [PATCH 22/44] fix: a strong reference does not take an object that
 belongs to another place

---
 src/aaf2/properties.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 96ed94a..c1571e7 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -363,6 +363,9 @@ class StrongRefProperty(Property):
         if value.root is not self.parent.root:
             raise AAFAttachError("Object is from a different root")
 
+        if value.dir and value is not self.object:
+            raise AAFAttachError("Object already attached")
+
         if self.ref is None:
             propdef = self.propertydef
             self.ref = mangle_name(propdef.property_name, self.pid, 32)
@@ -396,7 +399,7 @@ class StrongRefProperty(Property):
         dir_entry = self.parent.dir.get(self.ref)
         if dir_entry is None:
             dir_entry = self.parent.dir.makedir(self.ref)
-        if self.object.dir != dir_entry:
+        if self.object.dir is not dir_entry:
             self.object.attach(dir_entry)
 
         # convert to weakref
@@ -696,7 +699,7 @@ class StrongRefVectorProperty(Property):
             dir_entry = self.parent.dir.get(ref)
             if dir_entry is None:
                 dir_entry = self.parent.dir.makedir(ref)
-            if obj.dir != dir_entry:
+            if obj.dir is not dir_entry:
                 obj.attach(dir_entry)
 
 
@@ -928,7 +931,7 @@ class StrongRefSetProperty(Property):
                 dir_entry = self.parent.dir.get(ref)
                 if dir_entry is None:
                     dir_entry = self.parent.dir.makedir(ref)
-                if item.dir != dir_entry:
+                if item.dir is not dir_entry:
                     item.attach(dir_entry)
 
         self.add_pid_entry()
@@ -997,7 +1000,7 @@ class StrongRefSetProperty(Property):
             dir_entry = self.parent.dir.get(ref)
             if dir_entry is None:
                 dir_entry = self.parent.dir.makedir(ref)
-            if obj.dir != dir_entry:
+            if obj.dir is not dir_entry:
                 obj.attach(dir_entry)
 
 
@@ -1434,7 +1437,7 @@ def add2set(self, pid, key, value):
         dir_entry = prop.parent.dir.get(ref)
         if dir_entry is None:
             dir_entry = prop.parent.dir.makedir(ref)
-        if value.dir != dir_entry:
+        if value.dir is not dir_entry:
             value.attach(dir_entry)
         prop.mark_modified()
 
-- 
2.43.0


From 65e1a388a0af148fd8f65e1c0d2fe28d5ebbcfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:42 +0000
Subject: [PATCH 23/44] fix: refused collection changes leave the collection as
 it was

---
 src/aaf2/properties.py | 57 +++++++++++++++++++++++++++++++-----------
 1 file changed, 42 insertions(+), 15 deletions(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index c1571e7..3cc2495 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -642,20 +642,30 @@ class StrongRefVectorProperty(Property):
         self.add_pid_entry()
         self.attach()
 
-    @writeonly
-    def extend(self, value):
-        index_name = self.index_name # sets self.data
+    def check_values(self, values, current=()):
         ref_classdef = self.ref_classdef
+        owned = set(id(obj) for obj in current)
+        seen = set()
 
-        for obj in value:
+        for obj in values:
             assert ref_classdef.isinstance(obj.classdef)
 
             if obj.root is not self.parent.root:
                 raise AAFAttachError("Object is from a different root")
 
-            if obj.dir:
+            if obj.dir and id(obj) not in owned:
                 raise AAFAttachError("Object already attached")
 
+            if id(obj) in seen:
+                raise AAFAttachError("Object added more than once")
+            seen.add(id(obj))
+
+    @writeonly
+    def extend(self, value):
+        value = list(value)
+        self.check_values(value)
+        index_name = self.index_name # sets self.data
+
         for obj in value:
             i = len(self.references)
             self.references.append(self.next_free_key)
@@ -679,6 +689,8 @@ class StrongRefVectorProperty(Property):
             self.remove_pid_entry()
             return
 
+        value = list(value)
+        self.check_values(value, list(self))
         self.clear()
         self.extend(value)
 
@@ -886,10 +898,9 @@ class StrongRefSetProperty(Property):
 
         obj.unique_property.data = new_key.bytes_le
 
-    @writeonly
-    def extend(self, values):
-        typedef = self.typedef
-        classdef = typedef.ref_classdef
+    def check_values(self, values, current=()):
+        classdef = self.typedef.ref_classdef
+        owned = set(id(item) for item in current)
 
         # check values are the correct type
         for item in values:
@@ -897,8 +908,15 @@ class StrongRefSetProperty(Property):
                 raise TypeError("Invalid Value, expected {}, got {}".format(classdef, item.classdef))
             if item.root is not self.parent.root:
                 raise AAFAttachError("Object is from a different root")
-            if item.dir:
+            if item.dir and id(item) not in owned:
                 raise AAFAttachError("Object already attached")
+            assert item.unique_key is not None
+
+    @writeonly
+    def extend(self, values):
+        values = list(values)
+        self.check_values(values)
+        classdef = self.typedef.ref_classdef
 
         if self.key_pid is None:
             self.key_pid = classdef.unique_key_pid
@@ -912,9 +930,8 @@ class StrongRefSetProperty(Property):
 
         for item in values:
             key = item.unique_key
-            assert key is not None
 
-            current = self.objects.get(key, None)
+            current = self.get(key, None)
             current_local_key = self.references.get(key, None)
 
             if current and current is not item:
@@ -974,10 +991,12 @@ class StrongRefSetProperty(Property):
             self.remove_pid_entry()
             return
 
-        self.clear()
         if isinstance(value, dict):
             value = value.values()
 
+        value = list(value)
+        self.check_values(value, self.values())
+        self.clear()
         self.extend(value)
         return
 
@@ -1227,8 +1246,7 @@ class WeakRefArrayProperty(Property):
             obj = resolve_weakref(self, key)
             yield (key, obj)
 
-    @writeonly
-    def extend(self, values):
+    def check_values(self, values):
         ref_classdef = self.ref_classdef
 
         # check values are the correct type
@@ -1237,6 +1255,13 @@ class WeakRefArrayProperty(Property):
                 raise TypeError("Invalid Value")
             if item.root is not self.parent.root:
                 raise AAFAttachError("Object is from a different root")
+            assert item.unique_key is not None
+
+    @writeonly
+    def extend(self, values):
+        values = list(values)
+        self.check_values(values)
+        ref_classdef = self.ref_classdef
 
         if self.index_name is None:
             propdef = self.propertydef
@@ -1273,6 +1298,8 @@ class WeakRefArrayProperty(Property):
             self.remove_pid_entry()
             return
 
+        value = list(value)
+        self.check_values(value)
         self.clear()
         self.extend(value)
 
-- 
2.43.0


From 126ac6a60fad864ca3858205e0f2346169438f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:28 +0000
Subject: [PATCH 24/44] fix: typed values of read only files are refused before
 they change

---
 src/aaf2/misc.py       | 17 ++++++-----------
 src/aaf2/properties.py |  6 ++++++
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/aaf2/misc.py b/src/aaf2/misc.py
index 2deec66..bc5d605 100644
--- a/src/aaf2/misc.py
+++ b/src/aaf2/misc.py
@@ -90,9 +90,8 @@ class TaggedValue(core.AAFObject):
         if value_typedef is None:
             self.value = value
             return
-        self['Value'].add_pid_entry()
-        self['Value'].data = self['Value'].typedef.encode(value, value_typedef)
-        self['Value'].mark_modified()
+        p = self['Value']
+        p.set_data(p.typedef.encode(value, value_typedef))
 
     def __repr__(self):
         s = "%s.%s" % (self.__class__.__module__,
@@ -179,11 +178,8 @@ class ConstantValue(Parameter):
 
     @value.setter
     def value(self, value):
-        self['Value'].add_pid_entry()
-        indirect_typedef = self['Value'].typedef
-        parameter_typdef = self.typedef
-        self['Value'].data = indirect_typedef.encode(value, parameter_typdef)
-        self['Value'].mark_modified()
+        p = self['Value']
+        p.set_data(p.typedef.encode(value, self.typedef))
 
 
 @register_class
@@ -228,9 +224,8 @@ class VaryingValue(Parameter):
         cp = self.root.create.ControlPoint()
         cp.time = time
 
-        cp['Value'].add_pid_entry()
-        cp['Value'].data = cp['Value'].typedef.encode(value, self.typedef)
-        cp['Value'].mark_modified()
+        p = cp['Value']
+        p.set_data(p.typedef.encode(value, self.typedef))
 
         if edit_hint:
             cp['EditHint'].value = edit_hint
diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 3cc2495..651cf24 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -165,6 +165,12 @@ class Property(object):
         self.data = self.typedef.encode(value)
         self.add_pid_entry()
 
+    @writeonly
+    def set_data(self, data):
+        """Sets the value from already encoded data"""
+        self.data = data
+        self.add_pid_entry()
+
     def add_pid_entry(self):
         if not self.pid in self.parent.property_entries:
             self.parent.property_entries[self.pid] = self
-- 
2.43.0


From 0c73e8ce510ef38367b209859f0e7bcec1afaede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:28 +0000
Subject: [PATCH 25/44] fix: elements added to an enumeration and changed
 property definitions are saved

---
 src/aaf2/metadict.py | 2 ++
 src/aaf2/types.py    | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/aaf2/metadict.py b/src/aaf2/metadict.py
index 14498ab..f91ecdb 100644
--- a/src/aaf2/metadict.py
+++ b/src/aaf2/metadict.py
@@ -64,6 +64,7 @@ class PropertyDef(core.AAFObject):
     @property_name.setter
     def property_name(self, value):
        self.property_entries[PID_NAME].data = encode_utf16le(value)
+       self.property_entries[PID_NAME].mark_modified()
        self._property_name = value
 
     @property
@@ -84,6 +85,7 @@ class PropertyDef(core.AAFObject):
     @pid.setter
     def pid(self, value):
         self.property_entries[PID_PID].data = encode_u16le(value)
+        self.property_entries[PID_PID].mark_modified()
 
     @property
     def auid(self):
diff --git a/src/aaf2/types.py b/src/aaf2/types.py
index 22754d0..7dbdf2a 100644
--- a/src/aaf2/types.py
+++ b/src/aaf2/types.py
@@ -278,6 +278,7 @@ class TypeDefEnum(TypeDef):
         self.property_entries[PID_ENUM_NAMES].data = encode_utf16_array(names)
         fmt = b"<%dq" % len(values)
         self.property_entries[PID_ENUM_VALUES].data = pack(fmt, *values)
+        self.property_entries[PID_ENUM_VALUES].mark_modified()
 
     def decode(self, data):
 
@@ -824,6 +825,7 @@ class TypeDefExtEnum(TypeDef):
 
         self.property_entries[PID_EXTENUM_NAMES].data = encode_utf16_array(element_names)
         self.property_entries[PID_EXTENUM_VALUES].data = encode_auid_array(element_values)
+        self.property_entries[PID_EXTENUM_VALUES].mark_modified()
 
     @property
     def elements(self):
-- 
2.43.0


From 6fb32602b96e1078dfac3736d77b3c15d5d3f322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:28 +0000
Subject: [PATCH 26/44] fix: deleting a property of a read only file is refused
 before it is removed

---
 src/aaf2/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aaf2/core.py b/src/aaf2/core.py
index 89829f9..81b37c2 100644
--- a/src/aaf2/core.py
+++ b/src/aaf2/core.py
@@ -342,6 +342,9 @@ class AAFObject(object):
         if result is sentinel:
             raise KeyError(key)
 
+        if not result.writeable:
+            raise AAFPropertyError("file readonly")
+
         del self.property_entries[result.pid]
         if self.dir:
             self.root.manager.add_modified(self)
-- 
2.43.0


From 044f0de094d2e05c927449e4aa7c0864a4b7461f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:09 +0000
Subject: [PATCH 27/44] fix: a new stream property is saved and refused for
 read only files

---
 src/aaf2/properties.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 651cf24..de7459b 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -226,9 +226,13 @@ class StreamProperty(Property):
         if self.stream_name:
             return
 
+        if not self.writeable:
+            raise AAFPropertyError("file readonly")
+
         self.stream_name = mangle_name(self.propertydef.property_name, self.pid, 32)
         self.data = self.encode(self.stream_name)
         self.add_pid_entry()
+        self.mark_modified()
 
     def open(self, mode='r'):
         self.setup_stream()
-- 
2.43.0


From 46fa24bd78d143750270f787161b16836315ac40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:04 +0000
Subject: [PATCH 28/44] fix: an object whose unique key is swapped in its
 collection is saved

---
 src/aaf2/properties.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index de7459b..777312e 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -907,6 +907,7 @@ class StrongRefSetProperty(Property):
         self.objects[new_key] = obj
 
         obj.unique_property.data = new_key.bytes_le
+        obj.unique_property.mark_modified()
 
     def check_values(self, values, current=()):
         classdef = self.typedef.ref_classdef
-- 
2.43.0


From 42781927e833c9f142593508fe71f986cfcbd661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:01 +0000
Subject: [PATCH 29/44] fix: nested creation of objects builds the classes that
 were asked for

---
 src/aaf2/file.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/aaf2/file.py b/src/aaf2/file.py
index 31de58b..eaa1c42 100644
--- a/src/aaf2/file.py
+++ b/src/aaf2/file.py
@@ -32,11 +32,11 @@ class AAFFactory(object):
 
     def __init__(self, root):
         self.root = root
-        self.class_name = None
 
     def __getattr__(self, name):
-        self.class_name = name
-        return self.create_instance
+        def create_instance(*args, **kwargs):
+            return self.from_name(name, *args, **kwargs)
+        return create_instance
 
     def from_name(self, name, *args, **kwargs):
         classdef = self.root.metadict.lookup_classdef(name)
@@ -59,9 +59,6 @@ class AAFFactory(object):
 
         return obj
 
-    def create_instance(self, *args, **kwargs):
-        return self.from_name(self.class_name, *args, **kwargs)
-
 class AAFObjectManager(object):
 
     def __init__(self, root):
-- 
2.43.0


From ad8212ac3ecc75c29d466861ab9731d33321cabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:01 +0000
Subject: [PATCH 30/44] fix: close the file when opening it as an AAF file
 fails

---
 src/aaf2/file.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/aaf2/file.py b/src/aaf2/file.py
index eaa1c42..913ac48 100644
--- a/src/aaf2/file.py
+++ b/src/aaf2/file.py
@@ -198,6 +198,13 @@ class AAFFile(object):
         else:
             self.f = io.open(path, mode, buffering=buffering)
 
+        try:
+            self.load(sector_size, extensions)
+        except:
+            self.f.close()
+            raise
+
+    def load(self, sector_size, extensions):
         self.cfb = CompoundFileBinary(self.f, self.mode, sector_size=sector_size)
         self.weakref_table = []
         self.manager = AAFObjectManager(self)
-- 
2.43.0


From 4fd2506fe08baf99ba4264e74a7be106691cead5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:39 +0000
Subject: [PATCH 31/44] fix: the wave file is closed after importing audio
 essence

---
 src/aaf2/mobs.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/aaf2/mobs.py b/src/aaf2/mobs.py
index ee261b1..318a789 100644
--- a/src/aaf2/mobs.py
+++ b/src/aaf2/mobs.py
@@ -391,6 +391,12 @@ class SourceMob(Mob):
 
         # read the wav file header
         a = audio.WaveReader(path)
+        try:
+            return self._import_wave(a, edit_rate, tape, length, offline)
+        finally:
+            a.close()
+
+    def _import_wave(self, a, edit_rate, tape, length, offline):
         sample_rate = a.getframerate()
         channels = a.getnchannels()
         sample_width = a.getsampwidth()
-- 
2.43.0


From 2822f85e8528a036935bf2db702dc55f5d3f752a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:25 +0000
Subject: [PATCH 32/44] fix: generated storage names hold no characters the
 container reserves

---
 src/aaf2/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aaf2/utils.py b/src/aaf2/utils.py
index 4b901c9..7c7152b 100644
--- a/src/aaf2/utils.py
+++ b/src/aaf2/utils.py
@@ -200,6 +200,9 @@ def mangle_name(name, pid, size):
     p = "%x" % pid
     max_size = size - len(p) - 1 -1
     new_name = squeeze_name(name, max_size)
+    # not allowed in the names of storages and streams
+    for ch in '/\\:!':
+        new_name = new_name.replace(ch, '-')
     return "%s-%s" % (new_name, p)
 
 def safe_print(*args):
-- 
2.43.0


From 357fa2c85a13cf09a1cf6f39d2c27accef50ad07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:37 +0000
Subject: [PATCH 33/44] fix: assigning a strong reference detaches an old
 object that is not loaded

---
 src/aaf2/properties.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 777312e..044e794 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -382,8 +382,12 @@ class StrongRefProperty(Property):
             self.data = self.encode(self.ref)
 
         # before assigning new object detach old
-        if self.object:
-            self.object.detach()
+        current = self.object
+        if current is None and self.attached and self.pid in self.parent.property_entries:
+            current = self.value
+
+        if current:
+            current.detach()
             self.object = None
 
         self.object = value
-- 
2.43.0


From 127be33baaad0650986da7cbe497cae0073e2f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:59 +0000
Subject: [PATCH 34/44] fix: removing a property from an object detaches the
 objects it owns

---
 src/aaf2/core.py       |  2 +-
 src/aaf2/properties.py | 17 +++++++++++++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/core.py b/src/aaf2/core.py
index 81b37c2..0357548 100644
--- a/src/aaf2/core.py
+++ b/src/aaf2/core.py
@@ -345,7 +345,7 @@ class AAFObject(object):
         if not result.writeable:
             raise AAFPropertyError("file readonly")
 
-        del self.property_entries[result.pid]
+        result.remove_pid_entry()
         if self.dir:
             self.root.manager.add_modified(self)
 
diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 044e794..3024777 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -396,6 +396,15 @@ class StrongRefProperty(Property):
 
         self.attach()
 
+    def remove_pid_entry(self):
+        # the removed object no longer has a place in the file
+        if self.attached and self.pid in self.parent.property_entries:
+            current = self.value
+            if current:
+                current.detach()
+        self.object = None
+        super(StrongRefProperty, self).remove_pid_entry()
+
     def detach(self):
         # convert to regular ref
         self.objectref = self.value
@@ -518,6 +527,10 @@ class StrongRefVectorProperty(Property):
             s.write(f.getvalue())
             s.truncate()
 
+    def remove_pid_entry(self):
+        self.clear()
+        super(StrongRefVectorProperty, self).remove_pid_entry()
+
     @property
     def ref_classdef(self):
         return self.typedef.element_typedef.ref_classdef
@@ -982,6 +995,10 @@ class StrongRefSetProperty(Property):
             self.objects = {}
         self.next_free_key = 0
 
+    def remove_pid_entry(self):
+        self.clear()
+        super(StrongRefSetProperty, self).remove_pid_entry()
+
     @writeonly
     def pop(self, key):
         obj = self.get(key)
-- 
2.43.0


From 5154bef1e6169b52226f48e75890cfecc37d6c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:16 +0000
Subject: [PATCH 35/44] fix: a failed change of a unique key leaves the
 collection as it was

---
 src/aaf2/properties.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 3024777..5cc135f 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -916,6 +916,8 @@ class StrongRefSetProperty(Property):
         if new_key != old_key and new_key in self.references:
             raise ValueError("key already exists: %s" % str(new_key))
 
+        data = new_key.bytes_le
+
         # remove reference
         self.objects.pop(old_key)
         local_key = self.references.pop(old_key)
@@ -923,7 +925,7 @@ class StrongRefSetProperty(Property):
         self.references[new_key] = local_key
         self.objects[new_key] = obj
 
-        obj.unique_property.data = new_key.bytes_le
+        obj.unique_property.data = data
         obj.unique_property.mark_modified()
 
     def check_values(self, values, current=()):
-- 
2.43.0


From 3d1a63837d8bf368e7abbc64a6cece821c66088a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:44 +0000
Subject: [PATCH 36/44] fix: a definition that refers to its own class can be
 copied into another file

---
 src/aaf2/metadict.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/aaf2/metadict.py b/src/aaf2/metadict.py
index f91ecdb..32599d2 100644
--- a/src/aaf2/metadict.py
+++ b/src/aaf2/metadict.py
@@ -449,11 +449,11 @@ class MetaDictionary(core.AAFObject):
 
         # create typedef if missing
         if not typedef:
+            ref_classdef = None
             if isinstance(ext_typedef, (types.TypeDefStrongRef,
                                         types.TypeDefWeakRef)):
-                # could this cause RecursionError?
-                classdef = ext_typedef.ref_classdef
-                self.register_external_classdef(classdef)
+                # registered below, the class can refer to this typedef
+                ref_classdef = ext_typedef.ref_classdef
 
             elif isinstance(ext_typedef, (types.TypeDefFixedArray,
                                           types.TypeDefVarArray,
@@ -479,6 +479,9 @@ class MetaDictionary(core.AAFObject):
             self.typedefs_by_name[typedef.type_name] = typedef
             self.typedefs_by_auid[typedef.auid] = typedef
 
+            if ref_classdef:
+                self.register_external_classdef(ref_classdef)
+
         # make sure enum has all the values
         if isinstance(ext_typedef, (types.TypeDefExtEnum, types.TypeDefEnum)):
             ext_elements = ext_typedef.elements
-- 
2.43.0


From 62f968b637439445c217468edafc1b0213fd58d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:44 +0000
Subject: [PATCH 37/44] fix: property numbers given explicitly are not handed
 out again, a known class can be registered again

---
 src/aaf2/metadict.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/aaf2/metadict.py b/src/aaf2/metadict.py
index 32599d2..c7fd818 100644
--- a/src/aaf2/metadict.py
+++ b/src/aaf2/metadict.py
@@ -259,6 +259,9 @@ class ClassDef(core.AAFObject):
         if pid is None:
             pid = self.root.metadict.next_free_pid()
             # assert False
+        elif pid >= 0x8000:
+            assert pid not in self.root.metadict.local_pids
+            self.root.metadict.local_pids.add(pid)
 
         p = PropertyDef(self.root, name, property_auid, pid, typedef_auid, optional, unique)
         # # this is done low level to avoid recursion errors
@@ -422,16 +425,7 @@ class MetaDictionary(core.AAFObject):
 
         if propertydefs:
             for prop_name, prop_args in propertydefs.items():
-                property_auid = prop_args[0]
-                pid = prop_args[1]
-
-                if pid is None:
-                    pid = self.next_free_pid()
-                elif pid and pid >= 0x8000:
-                    assert pid not in self.local_pids
-                    self.local_pids.add(pid)
-
-                c.register_propertydef(prop_name, property_auid, pid, *prop_args[2:])
+                c.register_propertydef(prop_name, *prop_args)
 
         self.classdefs_by_name[name]   = c
         self.classdefs_by_auid[c.auid] = c
-- 
2.43.0


From f3e345887a31e11c87e73728fc9b0fc7ef2d71d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:44 +0000
Subject: [PATCH 38/44] fix: renumbering properties of the model keeps the
 definitions of the file

---
 src/aaf2/metadict.py | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/aaf2/metadict.py b/src/aaf2/metadict.py
index c7fd818..c6c291e 100644
--- a/src/aaf2/metadict.py
+++ b/src/aaf2/metadict.py
@@ -565,6 +565,12 @@ class MetaDictionary(core.AAFObject):
             self.typedefs_by_name[typedef.type_name] = typedef
             self.typedefs_by_auid[typedef.auid] = typedef
 
+        # dynamic pids of the model before the file was read
+        model_pids = {}
+        for classdef in self.classdefs_by_auid.values():
+            for pdef in classdef.propertydefs:
+                model_pids[pdef.auid] = pdef.pid
+
         # reset local pids
         self.local_pids = set()
         for key, classdef in self['ClassDefinitions'].items():
@@ -592,17 +598,16 @@ class MetaDictionary(core.AAFObject):
                     # this is super annoying, handle typedefs that have dynamic pids
                     classdef = self.classdefs_by_auid.get(typedef.class_id)
                     assert classdef
-                    for pdef in classdef['Properties'].values():
-                        if pdef.pid >= 0x8000:
-                            # if typedef has a dynamic pid might need to change it
-                            if pdef.pid in self.local_pids:
-                                old_pid = pdef.pid
-                                new_pid = self.next_free_pid()
-                                pdef.pid = new_pid
+                    if classdef.auid not in self['ClassDefinitions']:
+                        self.resolve_dynamic_pids(classdef)
 
-                                prop = typedef.property_entries.pop(old_pid)
-                                prop.pid = new_pid
-                                typedef.property_entries[new_pid] = prop
+                    for pdef in classdef['Properties'].values():
+                        # if typedef has a dynamic pid might need to change it
+                        old_pid = model_pids.get(pdef.auid, pdef.pid)
+                        if old_pid != pdef.pid and old_pid in typedef.property_entries:
+                            prop = typedef.property_entries.pop(old_pid)
+                            prop.pid = pdef.pid
+                            typedef.property_entries[prop.pid] = prop
 
                     self['TypeDefinitions'].append(typedef)
                     if classdef.auid not in self['ClassDefinitions']:
@@ -618,9 +623,14 @@ class MetaDictionary(core.AAFObject):
                 if key not in self['ClassDefinitions']:
 
                     # handle any conflicting dynamic pids
-                    for pdef in classdef['Properties'].values():
-                        if pdef.pid >= 0x8000:
-                            if pdef.pid in self.local_pids:
-                                pdef.pid = self.next_free_pid()
-
+                    self.resolve_dynamic_pids(classdef)
                     self['ClassDefinitions'].append(classdef)
+
+    def resolve_dynamic_pids(self, classdef):
+        for pdef in classdef['Properties'].values():
+            if pdef.pid >= 0x8000:
+                if pdef.pid in self.local_pids:
+                    pdef.pid = self.next_free_pid()
+                self.local_pids.add(pdef.pid)
+
+        classdef.propertydef_by_pid = dict((pdef.pid, pdef) for pdef in classdef['Properties'].values())
-- 
2.43.0


From 3846c4f534b472617491a784cf66eacc2296b2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:12 +0000
Subject: [PATCH 39/44] fix: arrays and records of renamed types and extensible
 enumerations can be read back

---
 src/aaf2/types.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/aaf2/types.py b/src/aaf2/types.py
index 7dbdf2a..0f493a6 100644
--- a/src/aaf2/types.py
+++ b/src/aaf2/types.py
@@ -762,6 +762,10 @@ class TypeDefRename(TypeDef):
         if PID_RENAME_TYPE in self.property_entries:
             return self.root.metadict.lookup_typedef(self.property_entries[PID_RENAME_TYPE].ref)
 
+    @property
+    def byte_size(self):
+        return self.renamed_typedef.byte_size
+
     def decode(self, data):
         return self.renamed_typedef.decode(data)
 
@@ -833,6 +837,11 @@ class TypeDefExtEnum(TypeDef):
         element_values = list(iter_auid_array(self.property_entries[PID_EXTENUM_VALUES].data))
         return dict(zip(element_values, element_names))
 
+    @property
+    def byte_size(self):
+        # an AUID
+        return 16
+
     def decode(self, data):
         if data is None:
             return None
-- 
2.43.0


From 41499d2a71893d2143bb219adc449995ebbb2b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:32 +0000
Subject: [PATCH 40/44] fix: an AUID hashes like the uuid.UUID it is equal to

---
 src/aaf2/auid.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/auid.py b/src/aaf2/auid.py
index f0922f6..ec23083 100644
--- a/src/aaf2/auid.py
+++ b/src/aaf2/auid.py
@@ -101,7 +101,10 @@ class AUID(object):
         return self.bytes_le[8:]
 
     def __hash__(self):
-        return hash(bytes(self.bytes_le))
+        # equal to the uuid.UUID of the same value, so hash the same way
+        d1, d2, d3 = struct.unpack_from(str('<IHH'), self.bytes_le, 0)
+        d4, = struct.unpack_from(str('>Q'), self.bytes_le, 8)
+        return hash(d1 << 96 | d2 << 80 | d3 << 64 | d4)
 
     def __eq__(self, other):
         if isinstance(other, (AUID, uuid.UUID)):
-- 
2.43.0


From 451e5a7df4067b33d59d41628f51e43648d1aec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:31 +0000
Subject: [PATCH 41/44] fix: the fraction of a stored time survives reading and
 writing

---
 src/aaf2/types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aaf2/types.py b/src/aaf2/types.py
index 0f493a6..af7ae3b 100644
--- a/src/aaf2/types.py
+++ b/src/aaf2/types.py
@@ -658,7 +658,7 @@ class TypeDefRecord(TypeDef):
                 t = datetime.time(result['hour'],
                                 result['minute'],
                                 result['second'],
-                                result['fraction'])
+                                result['fraction'] * 4000) # 1/250 seconds
                 return t
             except:
                 logging.warning("unable to decode time: {}".format(result))
@@ -725,7 +725,7 @@ class TypeDefRecord(TypeDef):
             t = {'hour' : data.hour,
                  'minute' : data.minute,
                  'second' : data.second,
-                 'fraction' : 0 }
+                 'fraction' : data.microsecond // 4000 }
             # print(t)
             data = t
 
-- 
2.43.0


From 07c949dcaafbd2374f4f723168b33b30604b0fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:09 +0000
Subject: [PATCH 42/44] fix: an operation group made without a media kind takes
 the one of its operation

---
 src/aaf2/components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/components.py b/src/aaf2/components.py
index 5da1ca4..9c7fb2c 100644
--- a/src/aaf2/components.py
+++ b/src/aaf2/components.py
@@ -307,7 +307,7 @@ class OperationGroup(Segment):
         super(OperationGroup, self).__init__(media_kind=media_kind, length=length)
         self.operation = self.root.dictionary.lookup_operationdef(operationdef)
 
-        if self.media_kind is None:
+        if media_kind is None and self.operation.media_kind is not None:
             self.media_kind = self.operation.media_kind
 
     @property
-- 
2.43.0


From 35ac256702bea4e7ed114484f2586ad89745f177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:39 +0000
Subject: [PATCH 43/44] fix: importing a DNxHD stream without frames is refused
 with an error that says so

---
 src/aaf2/mobs.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/aaf2/mobs.py b/src/aaf2/mobs.py
index 318a789..7c5db1d 100644
--- a/src/aaf2/mobs.py
+++ b/src/aaf2/mobs.py
@@ -364,6 +364,7 @@ class SourceMob(Mob):
         with io.open(path, 'rb', buffering=io.DEFAULT_BUFFER_SIZE) as f:
 
             cid = None
+            i = 0
             for i, packet in enumerate(video.iter_dnx_stream(f), 1):
                 if cid is None:
                     (cid, width, height, bitdepth, interlaced) = video.read_dnx_frame_header(packet)
@@ -378,6 +379,10 @@ class SourceMob(Mob):
 
                 if stream is not None:
                     stream.write(packet)
+
+        if i == 0:
+            raise ValueError("no DNxHD frames found: %s" % str(path))
+
         # set descriptor and component lengths
         slot.segment.length = length or i
         descriptor.length = i
-- 
2.43.0


From 382ff97f53c5dbc6e945296c8a491fa1c1a1182a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:39 +0000
Subject: [PATCH 44/44] fix: integrating over a single position does not use an
 unset variable

---
 src/aaf2/interpolation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/aaf2/interpolation.py b/src/aaf2/interpolation.py
index 49567a8..e438224 100644
--- a/src/aaf2/interpolation.py
+++ b/src/aaf2/interpolation.py
@@ -289,6 +289,7 @@ def mc_trapezoidal_integrate(value_at_func, a, b, n=5):
 def integrate_iter(value_at_func, start, end):
     # func is a value_at(time) function that takes a time arg
     pos = 0
+    t = float(start) - 0.5
     for i in range(start, end-1):
         t = float(i)
         pos += mc_trapezoidal_integrate(value_at_func, t-0.5, t)
-- 
2.43.0

