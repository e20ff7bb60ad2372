From 41581e6ac32b1695a72f8923150bc433ee68ceef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:25 +0000
Subject: [PATCH 01/74] fix: out-of-range numbers raise ValidationError, not
 OverflowError

---
 properties/basic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/properties/basic.py b/properties/basic.py
index 3ea5b5d..ca9c695 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -818,7 +818,7 @@ class Integer(Boolean):
                     value=value,
                     extra='Not within tolerance range of {}.'.format(TOL),
                 )
-        except (TypeError, ValueError):
+        except (TypeError, ValueError, OverflowError):
             self.error(instance, value, extra='Cannot cast to integer.')
         _in_bounds(self, instance, intval)
         return intval
@@ -872,7 +872,7 @@ class Float(Integer):
                     value=value,
                     extra='Not within tolerance range of {}.'.format(TOL),
                 )
-        except (TypeError, ValueError):
+        except (TypeError, ValueError, OverflowError):
             self.error(instance, value, extra='Cannot cast to float.')
         _in_bounds(self, instance, floatval)
         return floatval
@@ -922,7 +922,7 @@ class Complex(Boolean):
                     value=value,
                     extra='Not within tolerance range of {}.'.format(TOL),
                 )
-        except (TypeError, ValueError, AttributeError):
+        except (TypeError, ValueError, AttributeError, OverflowError):
             self.error(instance, value)
         return compval
 
-- 
2.43.0


From 7510dde42390f9bfe7a15ee6147ca9fabf6dde12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:57 +0000
Subject: [PATCH 02/74] fix: Float and Complex nan/inf values equal themselves

---
 properties/basic.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/properties/basic.py b/properties/basic.py
index ca9c695..2ba6b06 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -770,6 +770,13 @@ def _in_bounds(prop, instance, value):
         prop.error(instance, value, extra='Not within allowed range.')
 
 
+def _close(value_a, value_b):
+    """Checks if numbers are equal within TOL; nan and inf equal themselves"""
+    diff = abs(value_a - value_b)
+    both_nan = value_a != value_a and value_b != value_b                       #pylint: disable=comparison-with-itself
+    return diff <= TOL or value_a == value_b or both_nan
+
+
 class Integer(Boolean):
     """Property for integer values
 
@@ -879,7 +886,7 @@ class Float(Integer):
 
     def equal(self, value_a, value_b):
         try:
-            return abs(value_a - value_b) <= TOL
+            return _close(value_a, value_b)
         except TypeError:
             return False
 
@@ -928,8 +935,8 @@ class Complex(Boolean):
 
     def equal(self, value_a, value_b):
         try:
-            real_equal = abs(value_a.real - value_b.real) <= TOL
-            imag_equal = abs(value_a.imag - value_b.imag) <= TOL
+            real_equal = _close(value_a.real, value_b.real)
+            imag_equal = _close(value_a.imag, value_b.imag)
             return real_equal and imag_equal
         except (TypeError, AttributeError):
             return False
-- 
2.43.0


From 9131102805fc7b869c412cf809b996eac04ad9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:00 +0000
Subject: [PATCH 03/74] fix: nan is not within Float min/max bounds

---
 properties/basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/properties/basic.py b/properties/basic.py
index 2ba6b06..22f9aa0 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -764,8 +764,8 @@ Bool = Boolean
 def _in_bounds(prop, instance, value):
     """Checks if the value is in the range (min, max)"""
     if (
-            (prop.min is not None and value < prop.min) or
-            (prop.max is not None and value > prop.max)
+            (prop.min is not None and not value >= prop.min) or
+            (prop.max is not None and not value <= prop.max)
     ):
         prop.error(instance, value, extra='Not within allowed range.')
 
-- 
2.43.0


From f394ba5e9b799a173ebfdfe25c9676aae650c169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:03 +0000
Subject: [PATCH 04/74] fix: Boolean coerces numpy booleans so they serialize
 to JSON

---
 properties/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properties/basic.py b/properties/basic.py
index 22f9aa0..61eb14e 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -735,7 +735,7 @@ class Boolean(Property):
             value = bool(value)
         if not isinstance(value, BOOLEAN_TYPES):
             self.error(instance, value)
-        return value
+        return bool(value)
 
     def equal(self, value_a, value_b):
         return value_a is value_b
-- 
2.43.0


From 94445d7cecfa3ec8fb2a49fb44fa59b724144c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:05 +0000
Subject: [PATCH 05/74] fix: String strips again after changing case so
 coercion is stable

---
 properties/basic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/properties/basic.py b/properties/basic.py
index 61eb14e..89d9b6a 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -1039,6 +1039,7 @@ class String(Property):
             value = value.upper()
         elif self.change_case == 'lower':
             value = value.lower()
+        value = value.strip(self.strip)
         if self.unicode:
             value = text_type(value)
         else:
-- 
2.43.0


From 33f152bd956564313eed5d427c846fb9177bd869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:07 +0000
Subject: [PATCH 06/74] fix: firebrick color name

---
 properties/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properties/basic.py b/properties/basic.py
index 89d9b6a..113dc86 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -1536,7 +1536,7 @@ COLORS_NAMED = dict(
     darkslategray="2F4F4F", darkslategrey="2F4F4F", darkturquoise="00CED1",
     darkviolet="9400D3", deeppink="FF1493", deepskyblue="00BFFF",
     dimgray="696969", dimgrey="696969", dodgerblue="1E90FF",
-    irebrick="B22222", floralwhite="FFFAF0", forestgreen="228B22",
+    firebrick="B22222", floralwhite="FFFAF0", forestgreen="228B22",
     fuchsia="FF00FF", gainsboro="DCDCDC", ghostwhite="F8F8FF",
     gold="FFD700", goldenrod="DAA520", gray="808080",
     grey="808080", green="008000", greenyellow="ADFF2F",
-- 
2.43.0


From 35e5ec06a3df342029aded330d30122170079b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:10 +0000
Subject: [PATCH 07/74] fix: Color rejects strings that are not hex digits

---
 properties/basic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/properties/basic.py b/properties/basic.py
index 113dc86..f55c601 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -1200,7 +1200,7 @@ class Color(Property):
             value = value.upper().lstrip('#')
             if len(value) == 3:
                 value = ''.join(v*2 for v in value)
-            if len(value) != 6:
+            if len(value) != 6 or not HEX_DIGITS.issuperset(value):
                 self.error(instance, value, extra='Color must be known name '
                            'or a hex with 6 digits. e.g. "#FF0000"')
             try:
@@ -1513,6 +1513,8 @@ class Renamed(GettableProperty):
         return property(fget=fget, fset=fset, fdel=fdel, doc=scope.sphinx())
 
 
+HEX_DIGITS = set('0123456789ABCDEF')
+
 COLORS_20 = [
     '#1f77b4', '#aec7e8', '#ff7f0e', '#ffbb78', '#2ca02c',
     '#98df8a', '#d62728', '#ff9896', '#9467bd', '#c5b0d5',
-- 
2.43.0


From 329b081cbf02912fe17b7ab98bb70cd198254eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:13 +0000
Subject: [PATCH 08/74] fix: DateTime serializes years before 1000 with four
 digits

---
 properties/basic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/properties/basic.py b/properties/basic.py
index f55c601..241101f 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -1264,7 +1264,9 @@ class DateTime(Property):
 
     @staticmethod
     def to_json(value, **kwargs):
-        return value.strftime('%Y-%m-%dT%H:%M:%SZ')
+        return '{:04d}{}'.format(
+            value.year, value.strftime('-%m-%dT%H:%M:%SZ')
+        )
 
     @staticmethod
     def from_json(value, **kwargs):
-- 
2.43.0


From 20305bc4f19eb245901c50df5d4759ea11fa9933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:36 +0000
Subject: [PATCH 09/74] fix: in-place operators keep the stored container
 observed until it is replaced

---
 properties/base/containers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/properties/base/containers.py b/properties/base/containers.py
index edb8fbf..f9a655f 100644
--- a/properties/base/containers.py
+++ b/properties/base/containers.py
@@ -83,8 +83,8 @@ def properties_mutator(cls, name, ioper=False):
         val = getattr(copy, name)(*args, **kwargs)
         if not ioper:
             setattr(self._instance, self._name, copy)
-        self._instance = None
-        self._name = ''
+            self._instance = None
+            self._name = ''
         return val
 
     wrapped = getattr(cls, name)
-- 
2.43.0


From 3957a4f646bf8c36fac644144e836471f78a80ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:38 +0000
Subject: [PATCH 10/74] fix: observed container operators defer on unsupported
 operands

---
 properties/base/containers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/properties/base/containers.py b/properties/base/containers.py
index f9a655f..fefe1e5 100644
--- a/properties/base/containers.py
+++ b/properties/base/containers.py
@@ -98,6 +98,8 @@ def properties_operator(cls, name):
     def wrapper(self, *args, **kwargs):
         """Perform operation and cast to container class"""
         output = getattr(super(cls, self), name)(*args, **kwargs)
+        if output is NotImplemented:
+            return output
         return cls(output)
 
     wrapped = getattr(cls, name)
-- 
2.43.0


From 607726ad12f66140baae307830fb8a6203c94c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:41 +0000
Subject: [PATCH 11/74] fix: vector array validation leaves the input list
 unmodified

---
 properties/math.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/properties/math.py b/properties/math.py
index bd44fa2..e255fcb 100644
--- a/properties/math.py
+++ b/properties/math.py
@@ -445,6 +445,7 @@ class Vector3Array(BaseVector):
         if not isinstance(value, (tuple, list, np.ndarray)):
             self.error(instance, value)
         if isinstance(value, (tuple, list)):
+            value = list(value)
             for i, val in enumerate(value):
                 if isinstance(val, string_types):
                     if val.upper() not in VECTOR_DIRECTIONS:
@@ -515,6 +516,7 @@ class Vector2Array(BaseVector):
         if not isinstance(value, (tuple, list, np.ndarray)):
             self.error(instance, value)
         if isinstance(value, (tuple, list)):
+            value = list(value)
             for i, val in enumerate(value):
                 if isinstance(val, string_types):
                     if (
-- 
2.43.0


From 5ee7700396982ca4c821c5ac310586349c33bc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:43 +0000
Subject: [PATCH 12/74] fix: vector scaling leaves the input vector unmodified

---
 properties/math.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/properties/math.py b/properties/math.py
index e255fcb..34c3ad1 100644
--- a/properties/math.py
+++ b/properties/math.py
@@ -281,6 +281,7 @@ class BaseVector(Array):
         value = super(BaseVector, self).validate(instance, value)
 
         if self.length is not None:
+            value = value.copy()
             try:
                 value.length = self._length_array(value)
             except ZeroDivisionError:
-- 
2.43.0


From 5a35c6edf1b23f9aa85460c428b7d1ccf0a26130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:45 +0000
Subject: [PATCH 13/74] fix: Array deserialization does not truncate to the
 first dtype

---
 properties/math.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/properties/math.py b/properties/math.py
index 34c3ad1..1f6457a 100644
--- a/properties/math.py
+++ b/properties/math.py
@@ -221,7 +221,9 @@ class Array(Property):
             return self.deserializer(value, **kwargs)
         if value is None:
             return None
-        return self.wrapper(value).astype(self.dtype[0])
+        # Any allowed type may have been serialized, so use the widest one
+        dtype = max(self.dtype, key=(bool, int, float, complex).index)
+        return self.wrapper(value).astype(dtype)
 
     @staticmethod
     def to_json(value, **kwargs):
-- 
2.43.0


From b08553baee1e207231d85b4cff38e0aa712989ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:47 +0000
Subject: [PATCH 14/74] fix: zero-dimensional arrays serialize to JSON

---
 properties/math.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/properties/math.py b/properties/math.py
index 1f6457a..9090303 100644
--- a/properties/math.py
+++ b/properties/math.py
@@ -235,6 +235,8 @@ class Array(Property):
             if val and isinstance(val[0], list):
                 return [_recurse_list(v) for v in val]
             return [str(v) if np.isnan(v) or np.isinf(v) else v for v in val]
+        if value.ndim == 0:
+            return _recurse_list([value.item()])[0]
         return _recurse_list(value.tolist())
 
     @staticmethod
-- 
2.43.0


From d9f704abac1cf417e665e27473ae0fc67806adce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:50 +0000
Subject: [PATCH 15/74] fix: Singleton deserialization leaves the input
 dictionary unmodified

---
 properties/extras/singleton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properties/extras/singleton.py b/properties/extras/singleton.py
index bad960d..07c8004 100644
--- a/properties/extras/singleton.py
+++ b/properties/extras/singleton.py
@@ -77,12 +77,12 @@ class Singleton(six.with_metaclass(SingletonMetaclass, HasProperties)):
         """
         if not isinstance(value, dict):
             raise ValueError('HasProperties must deserialize from dictionary')
+        value = value.copy()
         identifier = value.pop('_singleton_id', value.get('name'))
         if identifier is None:
             raise ValueError('Singleton classes must contain identifying name')
         if identifier in cls._SINGLETONS:
             return cls._SINGLETONS[identifier]
-        value = value.copy()
         name = value.get('name', None)
         value.update({'name': identifier})
         newinst = super(Singleton, cls).deserialize(
-- 
2.43.0


From 099d5a68d3f5c04d4b1c60fc0da53676170ca087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:52 +0000
Subject: [PATCH 16/74] fix: ImagePNG serializes the whole image regardless of
 stream position

---
 properties/images.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/properties/images.py b/properties/images.py
index aef744a..e145bc6 100644
--- a/properties/images.py
+++ b/properties/images.py
@@ -88,6 +88,7 @@ class ImagePNG(File):
 
         to_json assumes that value has passed validation.
         """
+        value.seek(0)
         b64rep = base64.b64encode(value.read())
         value.seek(0)
         jsonrep = '{preamble}{b64}'.format(
-- 
2.43.0


From 4aa8b31eb96a7584ae13b37cafad5cbf79c57094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:54 +0000
Subject: [PATCH 17/74] fix: Union.equal skips props that cannot compare the
 values

---
 properties/base/union.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/properties/base/union.py b/properties/base/union.py
index 1c800c3..6044fb4 100644
--- a/properties/base/union.py
+++ b/properties/base/union.py
@@ -252,7 +252,14 @@ class Union(basic.Property):
         return self.from_json(value, **kwargs)
 
     def equal(self, value_a, value_b):
-        return any((prop.equal(value_a, value_b) for prop in self.props))
+        for prop in self.props:
+            try:
+                if prop.equal(value_a, value_b):
+                    return True
+            except GENERIC_ERRORS:
+                # Values may not be valid for this prop, e.g. arrays
+                continue
+        return False
 
     @staticmethod
     def to_json(value, **kwargs):
-- 
2.43.0


From 0a456a20690998f76b5f8deb09eb75b463a86e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:56 +0000
Subject: [PATCH 18/74] fix: URL info describes the property

---
 properties/extras/web.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/properties/extras/web.py b/properties/extras/web.py
index 6c8f40d..ad3fc5f 100644
--- a/properties/extras/web.py
+++ b/properties/extras/web.py
@@ -67,3 +67,4 @@ class URL(basic.String):
             info += ', path or query params removed'
         if self.remove_fragment:
             info += ', fragment removed'
+        return info
-- 
2.43.0


From 88d5a51950b331ffd4fc79e2b22919898b6a43d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:48 +0000
Subject: [PATCH 19/74] fix: HasUID instances referenced more than once can be
 deserialized

---
 properties/extras/uid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properties/extras/uid.py b/properties/extras/uid.py
index 20feeac..c7bb209 100644
--- a/properties/extras/uid.py
+++ b/properties/extras/uid.py
@@ -147,7 +147,7 @@ class HasUID(base.HasProperties):
             uid = value
         if uid in cls._INSTANCES and uid not in registry:
             return cls._INSTANCES[uid]
-        if uid in cls._INSTANCES:
+        if uid in cls._INSTANCES and registry[uid] is not cls._INSTANCES[uid]:
             raise ValueError('UID already used: {}'.format(uid))
         if uid not in registry:
             raise ValueError('Invalid UID: {}'.format(uid))
-- 
2.43.0


From ff6bb0d9d0455ae6935776216ec88068122b68be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:50 +0000
Subject: [PATCH 20/74] fix: HasUID deserialization respects assert_valid

---
 properties/extras/uid.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/properties/extras/uid.py b/properties/extras/uid.py
index c7bb209..1907225 100644
--- a/properties/extras/uid.py
+++ b/properties/extras/uid.py
@@ -138,7 +138,8 @@ class HasUID(base.HasProperties):
             input parameters.
         """
         registry = kwargs.pop('registry', None)
-        if registry is None:
+        root = registry is None
+        if root:
             if not isinstance(value, dict):
                 raise ValueError('HasUID must deserialize from dictionary')
             registry = value.copy()
@@ -168,6 +169,11 @@ class HasUID(base.HasProperties):
                 _instance=new_inst,
                 **kwargs
             )
+            # Nested instances may be incomplete; they are validated with root
+            if root and assert_valid and not new_inst.validate():
+                raise utils.ValidationError(
+                    'Deserialized instance is not valid'
+                )
         cls._INSTANCES[uid] = registry[uid]
         return registry[uid]
 
-- 
2.43.0


From f74cfa1e531698b949f94749fcfcc964c16be889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:52 +0000
Subject: [PATCH 21/74] fix: Singletons without a name property can be
 deserialized

---
 properties/extras/singleton.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/properties/extras/singleton.py b/properties/extras/singleton.py
index 07c8004..c86ede8 100644
--- a/properties/extras/singleton.py
+++ b/properties/extras/singleton.py
@@ -84,14 +84,28 @@ class Singleton(six.with_metaclass(SingletonMetaclass, HasProperties)):
         if identifier in cls._SINGLETONS:
             return cls._SINGLETONS[identifier]
         name = value.get('name', None)
-        value.update({'name': identifier})
-        newinst = super(Singleton, cls).deserialize(
-            value,
+        output_cls = cls._deserialize_class(
+            input_cls_name=value.get('__class__'),
             trusted=trusted,
             strict=strict,
-            assert_valid=assert_valid,
-            **kwargs
         )
+        # The identifying name is not necessarily a property
+        if 'name' not in output_cls._props:
+            value.pop('name', None)
+            kwargs.update({'_instance': output_cls(identifier)})
+        else:
+            value.update({'name': identifier})
+        try:
+            newinst = super(Singleton, cls).deserialize(
+                value,
+                trusted=trusted,
+                strict=strict,
+                assert_valid=assert_valid,
+                **kwargs
+            )
+        except Exception:
+            output_cls._SINGLETONS.pop(identifier, None)
+            raise
         if name:
             newinst.name = name
         return newinst
-- 
2.43.0


From 256b680a967b50e4bc4ae610e8019c6a2e48774a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:15 +0000
Subject: [PATCH 22/74] fix: Renamed Properties serialize, deserialize and
 compare by the new Property

---
 properties/base/base.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/properties/base/base.py b/properties/base/base.py
index 7bf8fb6..86d0f4e 100644
--- a/properties/base/base.py
+++ b/properties/base/base.py
@@ -56,6 +56,14 @@ def build_from_bases(bases, classdict, attr, attr_dict):
 
 
 
+def _resolve_prop(has_props, name):
+    """Return the named Property, following Renamed Properties"""
+    prop = has_props._props[name]
+    if isinstance(prop, basic.Renamed):
+        return _resolve_prop(has_props, prop.new_name)
+    return prop
+
+
 class PropertyMetaclass(type):
     """Metaclass to establish behavior of **HasProperties** classes
 
@@ -505,7 +513,12 @@ class HasProperties(with_metaclass(PropertyMetaclass, object)):
             else:
                 prop_source = self._backend
             data = (
-                (key, self._props[key].serialize(getattr(self, key), **kwargs))
+                (
+                    key,
+                    _resolve_prop(self, key).serialize(
+                        getattr(self, key), **kwargs
+                    ),
+                )
                 for key in prop_source
             )
             json_dict = {k: v for k, v in data if v is not None}
@@ -573,7 +586,9 @@ class HasProperties(with_metaclass(PropertyMetaclass, object)):
         kwargs.update({'trusted': trusted, 'strict': strict})
         newstate = {}
         for key, val in iteritems(state):
-            newstate[key] = output_cls._props[key].deserialize(val, **kwargs)
+            newstate[key] = _resolve_prop(output_cls, key).deserialize(
+                val, **kwargs
+            )
         mutable, immutable = utils.filter_props(output_cls, newstate, False)
         with handlers.listeners_disabled():
             if instance is None:
@@ -644,6 +659,9 @@ def equal(value_a, value_b):
         if value_a.__class__ is not value_b.__class__:
             return False
         for prop in itervalues(value_a._props):
+            if isinstance(prop, basic.Renamed):
+                # Compared under the new name
+                continue
             prop_a = getattr(value_a, prop.name)
             prop_b = getattr(value_b, prop.name)
             if prop_a is None and prop_b is None:
-- 
2.43.0


From 76f76175ee235b77dc2ca73aa5bda4c048a3d62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:17 +0000
Subject: [PATCH 23/74] fix: nesting one listeners_disabled instance restores
 the previous state

---
 properties/handlers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/properties/handlers.py b/properties/handlers.py
index 485ed99..47dfd89 100644
--- a/properties/handlers.py
+++ b/properties/handlers.py
@@ -53,14 +53,16 @@ class listeners_disabled(object):                                              #
         self._disable_type = value
 
     def __enter__(self):
-        self._previous_state = set(listeners_disabled._quarantine)
+        if not hasattr(self, '_previous_states'):
+            self._previous_states = []
+        self._previous_states.append(set(listeners_disabled._quarantine))
         if self.disable_type is None:
             listeners_disabled._quarantine = set(LISTENER_TYPES)
         else:
             listeners_disabled._quarantine.update(self.disable_type)
 
     def __exit__(self, *exc):
-        listeners_disabled._quarantine = self._previous_state
+        listeners_disabled._quarantine = self._previous_states.pop()
 
 
 class validators_disabled(listeners_disabled):                                 #pylint: disable=invalid-name, too-few-public-methods
-- 
2.43.0


From 1119d097fc8e709bce0889692497b23fb53471d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:20 +0000
Subject: [PATCH 24/74] fix: Property.equal handles arrays of any dimension and
 unequal shapes

---
 properties/basic.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/properties/basic.py b/properties/basic.py
index 241101f..f8b1f40 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -269,7 +269,18 @@ class GettableProperty(with_metaclass(ArgumentWrangler, object)):              #
             This method assumes that :code:`None` and
             :code:`properties.undefined` are never passed in as values
         """
-        equal = value_a == value_b
+        if (
+                hasattr(value_a, 'shape') and hasattr(value_b, 'shape') and
+                value_a.shape != value_b.shape
+        ):
+            return False
+        try:
+            equal = value_a == value_b
+        except ValueError:
+            # For example, arrays that cannot be broadcast
+            return False
+        if hasattr(equal, 'all'):
+            return bool(equal.all())
         if hasattr(equal, '__iter__'):
             return all(equal)
         return equal
-- 
2.43.0


From 6b5374c9c0225a55b5efee6fddd0c94c3f9a967d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:21 +0000
Subject: [PATCH 25/74] fix: Instance.equal handles array instances

---
 properties/base/instance.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/properties/base/instance.py b/properties/base/instance.py
index 2b622fc..d44e20e 100644
--- a/properties/base/instance.py
+++ b/properties/base/instance.py
@@ -155,7 +155,9 @@ class Instance(basic.Property):
         return self.from_json(value, **kwargs)
 
     def equal(self, value_a, value_b):
-        return equal(value_a, value_b)
+        if isinstance(value_a, HasProperties):
+            return equal(value_a, value_b)
+        return super(Instance, self).equal(value_a, value_b)
 
     @staticmethod
     def to_json(value, **kwargs):
-- 
2.43.0


From de6d386daa024de4dba0aab5daed5512de8a0650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:58 +0000
Subject: [PATCH 26/74] fix: Union.equal skips props that fail on the values
 with index or range errors

---
 properties/base/union.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properties/base/union.py b/properties/base/union.py
index 6044fb4..88cc648 100644
--- a/properties/base/union.py
+++ b/properties/base/union.py
@@ -256,7 +256,7 @@ class Union(basic.Property):
             try:
                 if prop.equal(value_a, value_b):
                     return True
-            except GENERIC_ERRORS:
+            except GENERIC_ERRORS + (LookupError, ArithmeticError):
                 # Values may not be valid for this prop, e.g. arrays
                 continue
         return False
-- 
2.43.0


From 4186e0b8787f79427c05d2640958af62f561c73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:14 +0000
Subject: [PATCH 27/74] fix: coercing containers wrap zero-dimensional arrays
 instead of iterating them

---
 properties/base/containers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/properties/base/containers.py b/properties/base/containers.py
index fefe1e5..ed55642 100644
--- a/properties/base/containers.py
+++ b/properties/base/containers.py
@@ -268,7 +268,10 @@ class Tuple(basic.Property):
         """
         if not self.coerce and not isinstance(value, self._class_container):
             self.error(instance, value)
-        if self.coerce and not isinstance(value, CONTAINERS):
+        if self.coerce and (
+                not isinstance(value, CONTAINERS) or
+                getattr(value, 'shape', None) == ()
+        ):
             value = [value]
         if not isinstance(value, self._class_container):
             out_class = self._class_container
-- 
2.43.0


From 0210d5115665800c39aa4d344141016e9ce000e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:17 +0000
Subject: [PATCH 28/74] fix: Dictionary.equal is False for sequences instead of
 raising IndexError

---
 properties/base/containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properties/base/containers.py b/properties/base/containers.py
index ed55642..fe570d4 100644
--- a/properties/base/containers.py
+++ b/properties/base/containers.py
@@ -670,7 +670,7 @@ class Dictionary(basic.Property):
                 if self.value_prop.equal(value_a[key_a], value_b[key_a]):
                     copy_b.pop(key_a)
             return len(copy_b) == 0
-        except (KeyError, TypeError, AttributeError):
+        except (LookupError, TypeError, AttributeError):
             return False
 
 
-- 
2.43.0


From 7bd21de43ebb1ccd0d510b492e9c7d962be2a2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:50 +0000
Subject: [PATCH 29/74] fix: strict Union deserialization rejects dictionaries
 no prop accepts

---
 properties/base/union.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/properties/base/union.py b/properties/base/union.py
index 88cc648..e220087 100644
--- a/properties/base/union.py
+++ b/properties/base/union.py
@@ -249,6 +249,9 @@ class Union(basic.Property):
                 return out_val
             except GENERIC_ERRORS:
                 continue
+        if kwargs['strict'] and isinstance(value, dict):
+            # Setting the dictionary would bypass strict deserialization
+            self.error(None, value)
         return self.from_json(value, **kwargs)
 
     def equal(self, value_a, value_b):
-- 
2.43.0


From da5aaebac1a69e802df44714458bef8f49440ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:57 +0000
Subject: [PATCH 30/74] fix: dynamic properties serialize as their prop does

---
 properties/basic.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/properties/basic.py b/properties/basic.py
index f8b1f40..adc2510 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -594,6 +594,14 @@ class DynamicProperty(GettableProperty):                                       #
 
         return property(fget=fget, fset=fset, fdel=fdel, doc=scope.sphinx())
 
+    def serialize(self, value, **kwargs):
+        """Serialize using prop serialization"""
+        return self.prop.serialize(value, **kwargs)
+
+    def deserialize(self, value, **kwargs):
+        """Deserialize using prop deserialization"""
+        return self.prop.deserialize(value, **kwargs)
+
     def equal(self, value_a, value_b):
         """Determine equality based on prop"""
         return self.prop.equal(value_a, value_b)
-- 
2.43.0


From 1774aa1f749b047830116fae6450b4c06d20bf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:01 +0000
Subject: [PATCH 31/74] fix: dynamic properties are not stored by
 deserialization

---
 properties/base/base.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/properties/base/base.py b/properties/base/base.py
index 86d0f4e..c1cd954 100644
--- a/properties/base/base.py
+++ b/properties/base/base.py
@@ -586,9 +586,14 @@ class HasProperties(with_metaclass(PropertyMetaclass, object)):
         kwargs.update({'trusted': trusted, 'strict': strict})
         newstate = {}
         for key, val in iteritems(state):
-            newstate[key] = _resolve_prop(output_cls, key).deserialize(
-                val, **kwargs
-            )
+            prop = _resolve_prop(output_cls, key)
+            if isinstance(prop, basic.DynamicProperty):
+                # Dynamic values are calculated, never stored
+                continue
+            if not isinstance(prop, basic.Property):
+                # Immutable values cannot be set by a Renamed Property
+                key = prop.name
+            newstate[key] = prop.deserialize(val, **kwargs)
         mutable, immutable = utils.filter_props(output_cls, newstate, False)
         with handlers.listeners_disabled():
             if instance is None:
-- 
2.43.0


From abf4a8b757324a938703cdbad1dc4a731fde9b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:26 +0000
Subject: [PATCH 32/74] fix: defaults are not stored for dynamic and Renamed
 properties

---
 properties/base/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/properties/base/base.py b/properties/base/base.py
index c1cd954..36aa753 100644
--- a/properties/base/base.py
+++ b/properties/base/base.py
@@ -271,6 +271,9 @@ class PropertyMetaclass(type):
 
         # Set the GettableProperties from defaults - these are only set here
         for key, prop in iteritems(obj._props):
+            if isinstance(prop, (basic.DynamicProperty, basic.Renamed)):
+                # These have no value of their own
+                continue
             if not isinstance(prop, basic.Property):
                 if key in obj._defaults:
                     val = obj._defaults[key]
-- 
2.43.0


From 51eefdabdd125f3785dceceff3c6e52f0ebadc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:58 +0000
Subject: [PATCH 33/74] fix: values that are not containers of the same kind
 are not equal

---
 properties/base/containers.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/properties/base/containers.py b/properties/base/containers.py
index fe570d4..e6b0d11 100644
--- a/properties/base/containers.py
+++ b/properties/base/containers.py
@@ -332,6 +332,9 @@ class Tuple(basic.Property):
         return self._class_container(output_list)
 
     def equal(self, value_a, value_b):
+        if not (isinstance(value_a, self._class_container) and
+                isinstance(value_b, self._class_container)):
+            return False
         try:
             if len(value_a) == len(value_b):
                 equal_list = [self.prop.equal(a, b)
@@ -458,6 +461,9 @@ class Set(List):
     _class_container = set
 
     def equal(self, value_a, value_b):
+        if not (isinstance(value_a, self._class_container) and
+                isinstance(value_b, self._class_container)):
+            return False
         try:
             if len(value_a) != len(value_b):
                 return False
@@ -662,6 +668,9 @@ class Dictionary(basic.Property):
         return self._class_container(output_dict)
 
     def equal(self, value_a, value_b):
+        if not (isinstance(value_a, self._class_container) and
+                isinstance(value_b, self._class_container)):
+            return False
         try:
             if len(value_a) != len(value_b):
                 return False
-- 
2.43.0


From fbb7c3043db18605cc8343afc44431417dd04fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:30 +0000
Subject: [PATCH 34/74] fix: inherited class defaults follow the method
 resolution order

---
 properties/base/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/properties/base/base.py b/properties/base/base.py
index 36aa753..72e5a1f 100644
--- a/properties/base/base.py
+++ b/properties/base/base.py
@@ -229,8 +229,11 @@ class PropertyMetaclass(type):
 
         # Update the class defaults to include inherited values
         _defaults = dict()
+        newcls._own_defaults = classdict.get('_defaults', dict())
         for parent in reversed(newcls.__mro__):
-            _defaults.update(getattr(parent, '_defaults', dict()))
+            _defaults.update(parent.__dict__.get(
+                '_own_defaults', parent.__dict__.get('_defaults', dict())
+            ))
 
         # Ensure defaults are valid and add them to the class
         for key, value in iteritems(_defaults):
-- 
2.43.0


From 42a13cfd22b26891555171eff5d13b040da6d99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:05 +0000
Subject: [PATCH 35/74] fix: items overridden by any base are not inherited
 past it

---
 properties/base/base.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/properties/base/base.py b/properties/base/base.py
index 72e5a1f..4cc3530 100644
--- a/properties/base/base.py
+++ b/properties/base/base.py
@@ -35,13 +35,20 @@ def build_from_bases(bases, classdict, attr, attr_dict):
         # Collect all bases so we ensure overridden items are assigned
         # in the correct order
         for item in reversed(base.__mro__):
-            if item is object or not isinstance(item, PropertyMetaclass):
-                continue
-            if item not in all_bases:
+            if item is not object and item not in all_bases:
                 all_bases.append(item)
     # Update the items in reverse MRO order; only keep those that are
     # defined on the bases
     for base in all_bases:
+        is_has_props = isinstance(base, PropertyMetaclass)
+        # Remove items the base overrides with something else
+        for key in list(output):
+            if key in base.__dict__ and not (
+                    is_has_props and key in getattr(base, attr)
+            ):
+                output.pop(key)
+        if not is_has_props:
+            continue
         for key, val in iteritems(getattr(base, attr)):
             if key in base.__dict__ and key in output_keys:
                 output.update({key: val})
-- 
2.43.0


From 128930f469b7feba77117a0dd6ce926e733a71bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:42 +0000
Subject: [PATCH 36/74] fix: inherited items follow the true method resolution
 order

---
 properties/base/base.py | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/properties/base/base.py b/properties/base/base.py
index 4cc3530..925e9b9 100644
--- a/properties/base/base.py
+++ b/properties/base/base.py
@@ -22,24 +22,39 @@ else:
 GENERIC_ERRORS = (ValueError, KeyError, TypeError, AttributeError)
 
 
+def merge_bases(bases):
+    """Return the method resolution order of a class with these bases"""
+    output = []
+    chains = [list(base.__mro__) for base in bases] + [list(bases)]
+    while any(chains):
+        chains = [chain for chain in chains if chain]
+        for chain in chains:
+            if not any(chain[0] in other[1:] for other in chains):
+                break
+        else:
+            raise TypeError('Cannot create a consistent method resolution '
+                            'order (MRO) for bases')
+        item = chain[0]
+        output.append(item)
+        for chain in chains:
+            if chain[0] is item:
+                chain.pop(0)
+    return output
+
+
 def build_from_bases(bases, classdict, attr, attr_dict):
     """Helper function to build private HasProperties attributes"""
     output = OrderedDict()
     output_keys = set()
-    all_bases = []
-    # Go through the bases from furthest to nearest ancestor
     for base in reversed(bases):
         # Only keep the items that are still defined on the bases
         if base is not object and isinstance(base, PropertyMetaclass):
             output_keys = output_keys.union(getattr(base, attr))
-        # Collect all bases so we ensure overridden items are assigned
-        # in the correct order
-        for item in reversed(base.__mro__):
-            if item is not object and item not in all_bases:
-                all_bases.append(item)
     # Update the items in reverse MRO order; only keep those that are
     # defined on the bases
-    for base in all_bases:
+    for base in reversed(merge_bases(bases)):
+        if base is object:
+            continue
         is_has_props = isinstance(base, PropertyMetaclass)
         # Remove items the base overrides with something else
         for key in list(output):
-- 
2.43.0


From 3d3459e1041acde55aa52a69a1d350a304cca9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:55 +0000
Subject: [PATCH 37/74] fix: documentation options follow the method resolution
 order

---
 properties/base/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/properties/base/base.py b/properties/base/base.py
index 925e9b9..63c587d 100644
--- a/properties/base/base.py
+++ b/properties/base/base.py
@@ -181,8 +181,8 @@ class PropertyMetaclass(type):
 
         # Determine if private properties should be documented or just public
         _doc_private = False
-        for base in reversed(bases):
-            _doc_private = getattr(base, '_doc_private', _doc_private)
+        for base in reversed(merge_bases(bases)):
+            _doc_private = base.__dict__.get('_doc_private', _doc_private)
         _doc_private = classdict.get('_doc_private', _doc_private)
 
         if not isinstance(_doc_private, bool):
@@ -195,8 +195,8 @@ class PropertyMetaclass(type):
 
         # Order the properties for the docs (default is alphabetical)
         _doc_order = None
-        for base in reversed(bases):
-            _doc_order = getattr(base, '_doc_order', _doc_order)
+        for base in reversed(merge_bases(bases)):
+            _doc_order = base.__dict__.get('_doc_order', _doc_order)
             if (
                     not isinstance(_doc_order, (list, tuple)) or
                     sorted(list(_doc_order)) != documented_props
-- 
2.43.0


From 8a98e821e4ef403983142d07ebf09cd3355e39d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:43 +0000
Subject: [PATCH 38/74] fix: equality is symmetric for self-referencing
 instances

---
 properties/base/base.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/properties/base/base.py b/properties/base/base.py
index 63c587d..584330b 100644
--- a/properties/base/base.py
+++ b/properties/base/base.py
@@ -683,12 +683,16 @@ def equal(value_a, value_b):
             not isinstance(value_b, HasProperties)
     ):
         return value_a == value_b
-    if getattr(value_a, '_testing_equality', False):
+    if value_a is value_b:
+        return True
+    if (
+            getattr(value_a, '_testing_equality', False) or
+            getattr(value_b, '_testing_equality', False)
+    ):
         return False
     value_a._testing_equality = True                                           #pylint: disable=protected-access
+    value_b._testing_equality = True                                           #pylint: disable=protected-access
     try:
-        if value_a is value_b:
-            return True
         if value_a.__class__ is not value_b.__class__:
             return False
         for prop in itervalues(value_a._props):
@@ -709,6 +713,7 @@ def equal(value_a, value_b):
         return True
     finally:
         value_a._testing_equality = False                                      #pylint: disable=protected-access
+        value_b._testing_equality = False                                      #pylint: disable=protected-access
 
 
 def copy(value, **kwargs):
-- 
2.43.0


From c5e66267e491887be6a6e88f4a03c905981ea362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:17 +0000
Subject: [PATCH 39/74] fix: deserialized identifiers are unique

An entry with the uid of another instance shared its identifier.
---
 properties/extras/uid.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/properties/extras/uid.py b/properties/extras/uid.py
index 1907225..e0fb1c4 100644
--- a/properties/extras/uid.py
+++ b/properties/extras/uid.py
@@ -169,6 +169,10 @@ class HasUID(base.HasProperties):
                 _instance=new_inst,
                 **kwargs
             )
+            new_uid = new_inst.uid
+            if cls._INSTANCES.get(new_uid, new_inst) is not new_inst:
+                raise ValueError('UID already used: {}'.format(new_uid))
+            cls._INSTANCES[new_uid] = new_inst
             # Nested instances may be incomplete; they are validated with root
             if root and assert_valid and not new_inst.validate():
                 raise utils.ValidationError(
-- 
2.43.0


From 0d9061b7ba64fdf743fc687bf7ef4f951adffecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:07 +0000
Subject: [PATCH 40/74] fix: pointers stay valid when their instance is
 registered later

Deserialized graphs with loading pointers could be invalid.
---
 properties/extras/uid.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/properties/extras/uid.py b/properties/extras/uid.py
index e0fb1c4..5cbd4dd 100644
--- a/properties/extras/uid.py
+++ b/properties/extras/uid.py
@@ -262,6 +262,17 @@ class Pointer(base.Instance):
             return super(Pointer, self).validate(instance, instance_value)
         return value
 
+    def assert_valid(self, instance, value=None):
+        """Checks if valid; a UID stays valid when it becomes loadable"""
+        if value is None:
+            value = instance._get(self.name)
+        if (
+                isinstance(value, string_types) and
+                not isinstance(self.validate(instance, value), string_types)
+        ):
+            return True
+        return super(Pointer, self).assert_valid(instance, value)
+
     def deserialize(self, value, **kwargs):
         """Deserialize instance from JSON value
 
-- 
2.43.0


From 28b87917bde1b9e0e57f1995e511604dc04f28c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:29 +0000
Subject: [PATCH 41/74] fix: Singletons with an invalid name in the data are
 not registered

The name is restored like other values: without calling listeners, before
validation, and also if it is empty.
---
 properties/extras/singleton.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/properties/extras/singleton.py b/properties/extras/singleton.py
index c86ede8..61c5570 100644
--- a/properties/extras/singleton.py
+++ b/properties/extras/singleton.py
@@ -6,6 +6,7 @@ from __future__ import unicode_literals
 
 import six
 
+from .. import handlers, utils
 from ..base import HasProperties, PropertyMetaclass
 
 
@@ -100,12 +101,16 @@ class Singleton(six.with_metaclass(SingletonMetaclass, HasProperties)):
                 value,
                 trusted=trusted,
                 strict=strict,
-                assert_valid=assert_valid,
                 **kwargs
             )
+            if name is not None:
+                with handlers.listeners_disabled():
+                    newinst.name = name
+            if assert_valid and not newinst.validate():
+                raise utils.ValidationError(
+                    'Deserialized instance is not valid'
+                )
         except Exception:
             output_cls._SINGLETONS.pop(identifier, None)
             raise
-        if name:
-            newinst.name = name
         return newinst
-- 
2.43.0


From 5e974b066fe421edf3a9713587135166e38f1055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:31 +0000
Subject: [PATCH 42/74] fix: deserialization leaves Singletons of other
 registries unchanged

---
 properties/extras/singleton.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/properties/extras/singleton.py b/properties/extras/singleton.py
index 61c5570..fc3cba3 100644
--- a/properties/extras/singleton.py
+++ b/properties/extras/singleton.py
@@ -90,6 +90,8 @@ class Singleton(six.with_metaclass(SingletonMetaclass, HasProperties)):
             trusted=trusted,
             strict=strict,
         )
+        if identifier in output_cls._SINGLETONS:
+            return output_cls._SINGLETONS[identifier]
         # The identifying name is not necessarily a property
         if 'name' not in output_cls._props:
             value.pop('name', None)
-- 
2.43.0


From 6af55f053372d36e9bc34fd3288b155205cb5e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:23 +0000
Subject: [PATCH 43/74] fix: copying a Singleton uses the registry of its class

A Singleton nested as an instance of a parent class with another registry
was replaced by the one of the parent class.
---
 properties/extras/singleton.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/properties/extras/singleton.py b/properties/extras/singleton.py
index fc3cba3..bcdc316 100644
--- a/properties/extras/singleton.py
+++ b/properties/extras/singleton.py
@@ -82,8 +82,6 @@ class Singleton(six.with_metaclass(SingletonMetaclass, HasProperties)):
         identifier = value.pop('_singleton_id', value.get('name'))
         if identifier is None:
             raise ValueError('Singleton classes must contain identifying name')
-        if identifier in cls._SINGLETONS:
-            return cls._SINGLETONS[identifier]
         name = value.get('name', None)
         output_cls = cls._deserialize_class(
             input_cls_name=value.get('__class__'),
-- 
2.43.0


From 3003aaafcaae05a7006de0fb5688b4c5f5642f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:03 +0000
Subject: [PATCH 44/74] fix: Instance properties only hold instances of their
 class

Constructing a Singleton may give an existing one of another class, which
was stored although it is not valid.
---
 properties/base/instance.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/properties/base/instance.py b/properties/base/instance.py
index d44e20e..6202848 100644
--- a/properties/base/instance.py
+++ b/properties/base/instance.py
@@ -99,8 +99,13 @@ class Instance(basic.Property):
             if isinstance(value, self.instance_class):
                 return value
             if isinstance(value, dict):
-                return self.instance_class(**value)
-            return self.instance_class(value)
+                new_value = self.instance_class(**value)
+            else:
+                new_value = self.instance_class(value)
+            # Singletons may be found that are not of this class
+            if not isinstance(new_value, self.instance_class):
+                raise ValueError('Not an instance of the class')
+            return new_value
         except GENERIC_ERRORS as err:
             if hasattr(err, 'error_tuples'):
                 extra = '({})'.format(' & '.join(
-- 
2.43.0


From ac9685fa2b74301b3c21382be9e48b0a565f982d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:46 +0000
Subject: [PATCH 45/74] fix: Union values stay valid if an earlier prop would
 coerce them

A coerced value may be accepted, and coerced to something else, by an
earlier prop that rejected the original one.
---
 properties/base/union.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/properties/base/union.py b/properties/base/union.py
index e220087..1e4c462 100644
--- a/properties/base/union.py
+++ b/properties/base/union.py
@@ -190,13 +190,10 @@ class Union(basic.Property):
 
     def assert_valid(self, instance, value=None):
         """Check if the Union has a valid value"""
-        valid = super(Union, self).assert_valid(instance, value)
-        if not valid:
-            return False
         if value is None:
             value = instance._get(self.name)
-            if value is None:
-                return True
+        if value is None:
+            return super(Union, self).assert_valid(instance, value)
         return self._try_prop_method(instance, value, 'assert_valid')
 
     def serialize(self, value, **kwargs):
-- 
2.43.0


From 69ca48445b44d3fd22116e1a4cdb98b36a0adf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:13 +0000
Subject: [PATCH 46/74] fix: Union props may have arrays as defaults

---
 properties/base/union.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/properties/base/union.py b/properties/base/union.py
index 1e4c462..a7d693b 100644
--- a/properties/base/union.py
+++ b/properties/base/union.py
@@ -157,7 +157,13 @@ class Union(basic.Property):
                 continue
             if prop_def is utils.undefined:
                 prop_def = prop.default
-            elif prop_def != prop.default:
+                continue
+            try:
+                unused = bool(prop_def != prop.default)
+            except ValueError:
+                # Arrays are compared element by element
+                unused = True
+            if unused:
                 warn('Union prop default ignored: {}'.format(prop.default),
                      RuntimeWarning)
 
-- 
2.43.0


From d94a84affa921c4078c359c50ce2b874329c7887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:22 +0000
Subject: [PATCH 47/74] fix: out-of-range numbers in the data raise ValueError

---
 properties/basic.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/properties/basic.py b/properties/basic.py
index adc2510..5305866 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -866,7 +866,10 @@ class Integer(Boolean):
 
     @staticmethod
     def from_json(value, **kwargs):
-        return int(value)
+        try:
+            return int(value)
+        except OverflowError as err:
+            raise ValueError(text_type(err))
 
 
 class Float(Integer):
@@ -917,7 +920,10 @@ class Float(Integer):
 
     @staticmethod
     def from_json(value, **kwargs):
-        return float(value)
+        try:
+            return float(value)
+        except OverflowError as err:
+            raise ValueError(text_type(err))
 
 
 class Complex(Boolean):
@@ -966,7 +972,10 @@ class Complex(Boolean):
 
     @staticmethod
     def from_json(value, **kwargs):
-        return complex(value)
+        try:
+            return complex(value)
+        except OverflowError as err:
+            raise ValueError(text_type(err))
 
 
 class String(Property):
-- 
2.43.0


From f6333919d3e89f5cf832c37d13e6ef315e0f4b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:33 +0000
Subject: [PATCH 48/74] fix: out-of-range numbers in array data raise
 ValueError

---
 properties/math.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/properties/math.py b/properties/math.py
index 9090303..9a7efdb 100644
--- a/properties/math.py
+++ b/properties/math.py
@@ -223,7 +223,10 @@ class Array(Property):
             return None
         # Any allowed type may have been serialized, so use the widest one
         dtype = max(self.dtype, key=(bool, int, float, complex).index)
-        return self.wrapper(value).astype(dtype)
+        try:
+            return self.wrapper(value).astype(dtype)
+        except OverflowError as err:
+            raise ValueError(str(err))
 
     @staticmethod
     def to_json(value, **kwargs):
-- 
2.43.0


From f926a8a17992ec82a3e7f0c6d3e1aadaa7c92955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:20 +0000
Subject: [PATCH 49/74] fix: large unsigned integer arrays keep their values
 when deserialized

---
 properties/math.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/properties/math.py b/properties/math.py
index 9a7efdb..aeb65c1 100644
--- a/properties/math.py
+++ b/properties/math.py
@@ -224,7 +224,12 @@ class Array(Property):
         # Any allowed type may have been serialized, so use the widest one
         dtype = max(self.dtype, key=(bool, int, float, complex).index)
         try:
-            return self.wrapper(value).astype(dtype)
+            array = self.wrapper(value)
+            if dtype is int and array.size and array.dtype.kind in 'uf':
+                # Large values only fit unsigned integers
+                if array.max() >= 2**63:
+                    return self.wrapper(np.array(value, dtype=np.uint64))
+            return array.astype(dtype)
         except OverflowError as err:
             raise ValueError(str(err))
 
-- 
2.43.0


From 2782994eb3b8140ac36ec2e6651b656710e32fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:22 +0000
Subject: [PATCH 50/74] fix: values that cannot be made arrays raise
 ValidationError

---
 properties/math.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/properties/math.py b/properties/math.py
index aeb65c1..a24dca4 100644
--- a/properties/math.py
+++ b/properties/math.py
@@ -142,7 +142,10 @@ class Array(Property):
         if not isinstance(value, (tuple, list, np.ndarray)):
             self.error(instance, value)
         if self.coerce:
-            value = self.wrapper(value)
+            try:
+                value = self.wrapper(value)
+            except (TypeError, OverflowError):
+                self.error(instance, value)
         valid_class = (
             self.wrapper if isinstance(self.wrapper, type) else np.ndarray
         )
-- 
2.43.0


From 917d13c70f47f08ebdd7bf1f57a760364eaaaf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:26 +0000
Subject: [PATCH 51/74] fix: vectors with nan or inf entries deserialize

---
 properties/math.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/properties/math.py b/properties/math.py
index a24dca4..3bba0ea 100644
--- a/properties/math.py
+++ b/properties/math.py
@@ -283,6 +283,18 @@ class BaseVector(Array):
             raise TypeError('length must be positive')
         self._length = float(value)
 
+    def deserialize(self, value, **kwargs):
+        """De-serialize the vector from JSON
+
+        nan and inf entries are strings in JSON, see :code:`to_json`.
+        """
+        if self.deserializer is None and value is not None:
+            try:
+                value = np.array(value).astype(float)
+            except (TypeError, OverflowError) as err:
+                raise ValueError(str(err))
+        return super(BaseVector, self).deserialize(value, **kwargs)
+
     def _length_array(self, value):                                            #pylint: disable=unused-argument
         """Return scalar length for Vector classes.
 
@@ -354,7 +366,7 @@ class Vector3(BaseVector):
 
     @staticmethod
     def from_json(value, **kwargs):
-        return vmath.Vector3(value)
+        return vmath.Vector3(np.array(value).astype(float))
 
 
 class Vector2(BaseVector):
@@ -405,7 +417,7 @@ class Vector2(BaseVector):
 
     @staticmethod
     def from_json(value, **kwargs):
-        return vmath.Vector2(value)
+        return vmath.Vector2(np.array(value).astype(float))
 
 
 class Vector3Array(BaseVector):
-- 
2.43.0


From 5046af80b554528a42c553f435ef93e83a456034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:11 +0000
Subject: [PATCH 52/74] fix: ImagePNG validates the whole file regardless of
 stream position

---
 properties/images.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/properties/images.py b/properties/images.py
index e145bc6..e37dac3 100644
--- a/properties/images.py
+++ b/properties/images.py
@@ -63,9 +63,10 @@ class ImagePNG(File):
             pass
         else:
             value = super(ImagePNG, self).validate(instance, value)
+            value.seek(0)
             try:
                 png.Reader(value).validate_signature()
-            except png.FormatError:
+            except (png.FormatError, EOFError):
                 self.error(instance, value, extra='Open file is not PNG.')
             value.seek(0)
         # Write input to new bytestream
-- 
2.43.0


From f1b452c5db182341db1406f9654d43b8ab752cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:14 +0000
Subject: [PATCH 53/74] fix: images that cannot be written raise
 ValidationError

---
 properties/images.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/properties/images.py b/properties/images.py
index e37dac3..a300708 100644
--- a/properties/images.py
+++ b/properties/images.py
@@ -74,7 +74,10 @@ class ImagePNG(File):
         output.name = self.filename
         output.__valid__ = True
         if isinstance(value, png.Image):
-            value.write(output)
+            try:
+                value.write(output)
+            except (png.Error, TypeError) as err:
+                self.error(instance, value, extra=str(err))
         else:
             fid = value
             fid.seek(0)
-- 
2.43.0


From 38665c8dafad8579133f45c5f4656fc2ed8e0d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:18 +0000
Subject: [PATCH 54/74] fix: closed images are not valid

---
 properties/images.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properties/images.py b/properties/images.py
index a300708..b5e84d6 100644
--- a/properties/images.py
+++ b/properties/images.py
@@ -56,7 +56,7 @@ class ImagePNG(File):
         Returns an open bytestream of the image
         """
         # Pass if already validated
-        if getattr(value, '__valid__', False):
+        if getattr(value, '__valid__', False) and not value.closed:
             return value
         # Validate that value is PNG
         if isinstance(value, png.Image):
-- 
2.43.0


From 055eca0d1436583967e7d6856f1240f7edff6fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:21 +0000
Subject: [PATCH 55/74] fix: image data that is not text raises ValueError

---
 properties/images.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/properties/images.py b/properties/images.py
index b5e84d6..7ba23f1 100644
--- a/properties/images.py
+++ b/properties/images.py
@@ -104,7 +104,10 @@ class ImagePNG(File):
     @staticmethod
     def from_json(value, **kwargs):
         """Convert a PNG Image from base64-encoded JSON"""
-        if not value.startswith(PNG_PREAMBLE):
+        if (
+                not isinstance(value, string_types) or
+                not value.startswith(PNG_PREAMBLE)
+        ):
             raise ValueError('Not a valid base64-encoded PNG image')
         infile = BytesIO()
         rep = base64.b64decode(value[len(PNG_PREAMBLE):].encode('utf-8'))
-- 
2.43.0


From 46c47e24d55200dacaec84ab7f00a4f49853fbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:24 +0000
Subject: [PATCH 56/74] fix: files may be opened in mode wb+

---
 properties/basic.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/properties/basic.py b/properties/basic.py
index 5305866..b74a53f 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -1428,7 +1428,11 @@ class File(Property):
             self.error(instance, value, extra='Not a file-like object')
         if not hasattr(value, 'mode') or self.valid_modes is None:
             pass
-        elif value.mode not in self.valid_modes:
+        elif (
+                value.mode not in self.valid_modes and
+                # Files opened in mode 'wb+' report mode 'rb+'
+                not (value.mode == 'rb+' and 'wb+' in self.valid_modes)
+        ):
             self.error(instance, value,
                        extra='Invalid mode: {}'.format(value.mode))
         if getattr(value, 'closed', False):
-- 
2.43.0


From b595ecbe40eafd0e5964c2f725bee02fc96aa5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:59 +0000
Subject: [PATCH 57/74] fix: task status without progress can be reported

---
 properties/extras/task.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/properties/extras/task.py b/properties/extras/task.py
index 82e5264..4e5ff42 100644
--- a/properties/extras/task.py
+++ b/properties/extras/task.py
@@ -81,9 +81,12 @@ class BaseTask(object):
     def report_status(self, status):
         """Hook for reporting the task status towards completion"""
         status = Instance('', TaskStatus).validate(None, status)
+        percent = '?'
+        if status.progress is not None:
+            percent = int(round(100*status.progress))
         print(r'{taskname} | {percent:>3}% | {message}'.format(
             taskname=self.__class__.__name__,
-            percent=int(round(100*status.progress)),
+            percent=percent,
             message=status.message if status.message else '',
         ))
 
-- 
2.43.0


From 3c4f1ac776a140f003a3d56a934d64b38165dc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:14 +0000
Subject: [PATCH 58/74] fix: the error hook is called once, and only for failed
 assignments

---
 properties/basic.py | 26 +++++++++++++++++++++++---
 properties/utils.py |  6 +++++-
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/properties/basic.py b/properties/basic.py
index b74a53f..ba2e839 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -261,6 +261,26 @@ class GettableProperty(with_metaclass(ArgumentWrangler, object)):              #
             raise ValidationError(message, 'invalid', self.name, instance)
         return True
 
+    def validate_once(self, instance, value):
+        """Validate, calling the error hook of the instance at most once
+
+        Errors of other Properties this Property consists of may be handled
+        or reported again; only an error that is raised in the end is passed
+        to the hook.
+        """
+        previous = getattr(instance, '_error_hook_postponed', False)
+        object.__setattr__(instance, '_error_hook_postponed', True)
+        try:
+            return self.validate(instance, value)
+        except ValidationError as err:
+            error = err
+        finally:
+            object.__setattr__(instance, '_error_hook_postponed', previous)
+        if getattr(error, 'postponed', False):
+            error.postponed = False
+            instance._error_hook(error.error_tuples)                           #pylint: disable=protected-access
+        raise error
+
     def equal(self, value_a, value_b):                                         #pylint: disable=no-self-use
         """Check if two valid Property values are equal
 
@@ -578,13 +598,13 @@ class DynamicProperty(GettableProperty):                                       #
             value = scope.func(self)
             if value is None or value is undefined:
                 return None
-            return scope.validate(self, value)
+            return scope.validate_once(self, value)
 
         def fset(self, value):
             """Validate and call setter"""
             if scope.set_func is None:
                 raise AttributeError('cannot set attribute')
-            scope.set_func(self, scope.validate(self, value))
+            scope.set_func(self, scope.validate_once(self, value))
 
         def fdel(self):
             """call deleter"""
@@ -692,7 +712,7 @@ class Property(GettableProperty):
         def fset(self, value):
             """Validate value and call the HasProperties _set method"""
             if value is not undefined:
-                value = scope.validate(self, value)
+                value = scope.validate_once(self, value)
             self._set(scope.name, value)
 
         def fdel(self):
diff --git a/properties/utils.py b/properties/utils.py
index bcb688d..113106b 100644
--- a/properties/utils.py
+++ b/properties/utils.py
@@ -161,8 +161,12 @@ class ValidationError(ValueError):
             self.error_tuples = _error_tuples
             if reason or prop or instance:
                 self.error_tuples.append(error_tuple)
+        self.postponed = False
         if not getattr(instance, '_getting_validated', True):
-            instance._error_hook(self.error_tuples)                           #pylint: disable=protected-access
+            if getattr(instance, '_error_hook_postponed', False):
+                self.postponed = True
+            else:
+                instance._error_hook(self.error_tuples)                       #pylint: disable=protected-access
 
 
 class Sentinel(object):                                                        #pylint: disable=too-few-public-methods
-- 
2.43.0


From 40eaf79d50f8924123c80bce33c4e6f713c99631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:44 +0000
Subject: [PATCH 59/74] fix: undefined properties are not serialized with
 save_dynamic

---
 properties/base/base.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/properties/base/base.py b/properties/base/base.py
index 584330b..7b34816 100644
--- a/properties/base/base.py
+++ b/properties/base/base.py
@@ -537,7 +537,12 @@ class HasProperties(with_metaclass(PropertyMetaclass, object)):
                 'save_dynamic': save_dynamic
             })
             if save_dynamic:
-                prop_source = self._props
+                props = {key: _resolve_prop(self, key) for key in self._props}
+                prop_source = [
+                    key for key, prop in iteritems(props)
+                    if prop.name in self._backend or
+                    isinstance(prop, basic.DynamicProperty)
+                ]
             else:
                 prop_source = self._backend
             data = (
-- 
2.43.0


From 513ee21aeebfd7799fd8729af7e4bbca76801827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:37 +0000
Subject: [PATCH 60/74] fix: files stay open when their deletion is refused

---
 properties/basic.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/properties/basic.py b/properties/basic.py
index ba2e839..08499ac 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -1425,9 +1425,13 @@ class File(Property):
 
         def fdel(self):
             """Set value to utils.undefined on delete"""
-            if self._get(scope.name) is not None:
-                self._get(scope.name).close()
-            self._set(scope.name, undefined)
+            value = self._get(scope.name)
+            try:
+                self._set(scope.name, undefined)
+            finally:
+                # The file stays open if a validator refuses to delete it
+                if value is not None and self._get(scope.name) is not value:
+                    value.close()
 
         new_prop = property(fget=prop.fget, fset=prop.fset,
                             fdel=fdel, doc=scope.sphinx())
-- 
2.43.0


From 51c84631fd9baa6324f4c563073959b01c475762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:46 +0000
Subject: [PATCH 61/74] fix: min and max of a number may be None in any order,
 as documented

---
 properties/basic.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/properties/basic.py b/properties/basic.py
index 08499ac..38e9d47 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -839,7 +839,10 @@ class Integer(Boolean):
 
     @min.setter
     def min(self, value):
-        if self.max is not None and value > self.max:
+        if (
+                value is not None and self.max is not None and
+                value > self.max
+        ):
             raise TypeError('min must be <= max')
         self._min = value
 
@@ -850,7 +853,10 @@ class Integer(Boolean):
 
     @max.setter
     def max(self, value):
-        if self.min is not None and value < self.min:
+        if (
+                value is not None and self.min is not None and
+                value < self.min
+        ):
             raise TypeError('max must be >= min')
         self._max = value
 
-- 
2.43.0


From e23d197aa466aa7617d89a7cca3564ff453ecc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:49 +0000
Subject: [PATCH 62/74] fix: min_length and max_length may be None, as
 documented

---
 properties/base/containers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/properties/base/containers.py b/properties/base/containers.py
index e6b0d11..b842999 100644
--- a/properties/base/containers.py
+++ b/properties/base/containers.py
@@ -211,6 +211,9 @@ class Tuple(basic.Property):
 
     @min_length.setter
     def min_length(self, value):
+        if value is None:
+            self._min_length = value
+            return
         if not isinstance(value, integer_types) or value < 0:
             raise TypeError('min_length must be integer >= 0')
         if self.max_length is not None and value > self.max_length:
@@ -224,6 +227,9 @@ class Tuple(basic.Property):
 
     @max_length.setter
     def max_length(self, value):
+        if value is None:
+            self._max_length = value
+            return
         if not isinstance(value, integer_types) or value < 0:
             raise TypeError('max_length must be integer >= 0')
         if self.min_length is not None and value < self.min_length:
-- 
2.43.0


From f29f82d5abe193f8ecc0f5f8916ff3242e09a60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:51 +0000
Subject: [PATCH 63/74] fix: length of a vector may be None, as documented

---
 properties/math.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/properties/math.py b/properties/math.py
index 3bba0ea..0f9acec 100644
--- a/properties/math.py
+++ b/properties/math.py
@@ -277,6 +277,9 @@ class BaseVector(Array):
 
     @length.setter
     def length(self, value):
+        if value is None:
+            self._length = value
+            return
         if not isinstance(value, (float, integer_types)):
             raise TypeError('length must be a float')
         if value <= 0.0:
-- 
2.43.0


From 81be89d9309a1a888738d80f8145a80cd2e6ec55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:53 +0000
Subject: [PATCH 64/74] fix: no link remains between some items when linking
 others fails

---
 properties/link.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/properties/link.py b/properties/link.py
index 6afaa50..df4debd 100644
--- a/properties/link.py
+++ b/properties/link.py
@@ -189,7 +189,13 @@ class link(object):                                                            #
             for j, item_j in enumerate(items):
                 if i == j:
                     continue
-                self._dlinks += (directional_link(item_i, item_j, **kwargs),)
+                try:
+                    dlink = directional_link(item_i, item_j, **kwargs)
+                except Exception:
+                    # Links to the other items must not remain
+                    self.unlink()
+                    raise
+                self._dlinks += (dlink,)
 
     @property
     def dlinks(self):
-- 
2.43.0


From e8dfc7ce32f8ac3d0d10baf7b3aae69c1e2ebaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:16 +0000
Subject: [PATCH 65/74] fix: a dictionary of choices is not changed by the
 property it is given to

---
 properties/basic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/properties/basic.py b/properties/basic.py
index 38e9d47..148e9c4 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -1160,6 +1160,7 @@ class StringChoice(Property):
             value = collections.OrderedDict((v, []) for v in value)
         if not isinstance(value, dict):
             raise TypeError('choices must be a set, list, tuple, or dict')
+        value = value.copy()
         for key, val in value.items():
             if isinstance(val, (set, list, tuple)):
                 value[key] = list(val)
-- 
2.43.0


From 90f096062de81cdfe2a919ba76cde605ef24b938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:33 +0000
Subject: [PATCH 66/74] fix: equality of arrays does not depend on their order

---
 properties/math.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/properties/math.py b/properties/math.py
index 0f9acec..070d847 100644
--- a/properties/math.py
+++ b/properties/math.py
@@ -173,7 +173,12 @@ class Array(Property):
             nan_mask = ~np.isnan(value_a)
             if not np.array_equal(nan_mask, ~np.isnan(value_b)):
                 return False
-            return np.allclose(value_a[nan_mask], value_b[nan_mask], atol=TOL)
+            value_a, value_b = value_a[nan_mask], value_b[nan_mask]
+            # The relative tolerance of allclose is not symmetric
+            return bool(
+                np.allclose(value_a, value_b, atol=TOL) and
+                np.allclose(value_b, value_a, atol=TOL)
+            )
         except TypeError:
             return False
 
-- 
2.43.0


From 08837829b462e9b986b4edfdb4b53f65910371d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 67/74] fix: listeners are disabled for the current thread only

---
 properties/handlers.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/properties/handlers.py b/properties/handlers.py
index 47dfd89..39c68b6 100644
--- a/properties/handlers.py
+++ b/properties/handlers.py
@@ -4,6 +4,8 @@ from __future__ import division
 from __future__ import print_function
 from __future__ import unicode_literals
 
+import threading
+
 from six import string_types
 
 from .utils import everything
@@ -11,6 +13,12 @@ from .utils import everything
 LISTENER_TYPES = {'validate', 'observe_set', 'observe_change'}
 
 
+class _Quarantine(threading.local):
+    """Types of listeners disabled in the current thread"""
+
+    types = frozenset()
+
+
 class listeners_disabled(object):                                              #pylint: disable=invalid-name, too-few-public-methods
     """Context manager for disabling all HasProperties listeners
 
@@ -24,9 +32,10 @@ class listeners_disabled(object):                                              #
             self.quietly_update()
     """
 
-    _quarantine = set()
+    _quarantine = _Quarantine()
 
     def __init__(self, disable_type=None):
+        self._local = threading.local()
         self.disable_type = disable_type
 
     @property
@@ -53,16 +62,18 @@ class listeners_disabled(object):                                              #
         self._disable_type = value
 
     def __enter__(self):
-        if not hasattr(self, '_previous_states'):
-            self._previous_states = []
-        self._previous_states.append(set(listeners_disabled._quarantine))
+        quarantine = listeners_disabled._quarantine
+        if not hasattr(self._local, 'previous_states'):
+            self._local.previous_states = []
+        self._local.previous_states.append(quarantine.types)
         if self.disable_type is None:
-            listeners_disabled._quarantine = set(LISTENER_TYPES)
+            quarantine.types = frozenset(LISTENER_TYPES)
         else:
-            listeners_disabled._quarantine.update(self.disable_type)
+            quarantine.types = quarantine.types.union(self.disable_type)
 
     def __exit__(self, *exc):
-        listeners_disabled._quarantine = self._previous_states.pop()
+        quarantine = listeners_disabled._quarantine
+        quarantine.types = self._local.previous_states.pop()
 
 
 class validators_disabled(listeners_disabled):                                 #pylint: disable=invalid-name, too-few-public-methods
@@ -103,7 +114,7 @@ def _set_listener(instance, obs):
 def _get_listeners(instance, change):
     """Gets listeners of changed Property on a HasProperties instance"""
     if (
-            change['mode'] not in listeners_disabled._quarantine and           #pylint: disable=protected-access
+            change['mode'] not in listeners_disabled._quarantine.types and     #pylint: disable=protected-access
             change['name'] in instance._listeners
     ):
         return instance._listeners[change['name']][change['mode']]
-- 
2.43.0


From eb8d7a2991e2684cd9f23da37dfef9bb7bec42de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:49 +0000
Subject: [PATCH 68/74] fix: a singleton name asked for by two threads gives
 one object

---
 properties/extras/singleton.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/properties/extras/singleton.py b/properties/extras/singleton.py
index bcdc316..f82faa1 100644
--- a/properties/extras/singleton.py
+++ b/properties/extras/singleton.py
@@ -19,8 +19,8 @@ class SingletonMetaclass(PropertyMetaclass):
             oldinst = cls._SINGLETONS[name]
             return oldinst
         newinst = super(SingletonMetaclass, cls).__call__(name, **kwargs)
-        cls._SINGLETONS[name] = newinst
-        return newinst
+        # Another thread may have added the name in the meantime
+        return cls._SINGLETONS.setdefault(name, newinst)
 
 
 class Singleton(six.with_metaclass(SingletonMetaclass, HasProperties)):
-- 
2.43.0


From 53343647db46832093986626c0478ec68391f482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:02 +0000
Subject: [PATCH 69/74] fix: an interrupted deserialization leaves no
 unfinished singleton

---
 properties/extras/singleton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properties/extras/singleton.py b/properties/extras/singleton.py
index f82faa1..43286e3 100644
--- a/properties/extras/singleton.py
+++ b/properties/extras/singleton.py
@@ -110,7 +110,7 @@ class Singleton(six.with_metaclass(SingletonMetaclass, HasProperties)):
                 raise utils.ValidationError(
                     'Deserialized instance is not valid'
                 )
-        except Exception:
+        except BaseException:
             output_cls._SINGLETONS.pop(identifier, None)
             raise
         return newinst
-- 
2.43.0


From 663a0559bbc9ca00a004f1800dcc5edde92761f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:02 +0000
Subject: [PATCH 70/74] fix: an interrupted link leaves none of its parts in
 force

---
 properties/link.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properties/link.py b/properties/link.py
index df4debd..62ef138 100644
--- a/properties/link.py
+++ b/properties/link.py
@@ -191,7 +191,7 @@ class link(object):                                                            #
                     continue
                 try:
                     dlink = directional_link(item_i, item_j, **kwargs)
-                except Exception:
+                except BaseException:
                     # Links to the other items must not remain
                     self.unlink()
                     raise
-- 
2.43.0


From f89cedeb86a889063bb4ec7e57f3b53c0025d3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:49 +0000
Subject: [PATCH 71/74] fix: vectors of very large or small values are scaled
 to their length

---
 properties/math.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/properties/math.py b/properties/math.py
index 070d847..975cec0 100644
--- a/properties/math.py
+++ b/properties/math.py
@@ -317,6 +317,14 @@ class BaseVector(Array):
 
         if self.length is not None:
             value = value.copy()
+            # Very large or small values are rescaled first, as their squares
+            # cannot be represented
+            raw = value.view(np.ndarray)
+            size = np.abs(raw).max(axis=-1, keepdims=True)
+            extreme = np.isfinite(size) & (size > 0) & (
+                (size > 1e150) | (size < 1e-150)
+            )
+            raw /= np.where(extreme, size, 1)
             try:
                 value.length = self._length_array(value)
             except ZeroDivisionError:
-- 
2.43.0


From 7b69c9976e2c5bff5b9e6b0e0eecb411ed8e8244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:49 +0000
Subject: [PATCH 72/74] fix: instances that compare equal do not stop each
 other's recursion

---
 properties/utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/properties/utils.py b/properties/utils.py
index 113106b..d6b9600 100644
--- a/properties/utils.py
+++ b/properties/utils.py
@@ -99,10 +99,10 @@ class stop_recursion_with(object):                                             #
         def run_once(self, *args, **kwargs):
             """Run wrapped function once, return backup on recursive calls
 
-            This function holds the source object in the decorator's
-            held_objects while the function is running.
+            This function holds the id of the source object in the
+            decorator's held_objects while the function is running.
             """
-            if self in decorator.held_objects:
+            if id(self) in decorator.held_objects:
                 if callable(decorator.backup):
                     output = decorator.backup(self, *args, **kwargs)
                 else:
@@ -111,10 +111,10 @@ class stop_recursion_with(object):                                             #
                     raise output
                 return output
             try:
-                decorator.held_objects.append(self)
+                decorator.held_objects.append(id(self))
                 output = func(self, *args, **kwargs)
             finally:
-                decorator.held_objects.remove(self)
+                decorator.held_objects.remove(id(self))
             return output
 
         return run_once
-- 
2.43.0


From cf530a958d52df6ade7bba9612b40d7a1a3bd6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:05 +0000
Subject: [PATCH 73/74] fix: values an array cannot be made of are reported
 like other invalid values

---
 properties/math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properties/math.py b/properties/math.py
index 975cec0..f29ecbd 100644
--- a/properties/math.py
+++ b/properties/math.py
@@ -144,7 +144,7 @@ class Array(Property):
         if self.coerce:
             try:
                 value = self.wrapper(value)
-            except (TypeError, OverflowError):
+            except (TypeError, ValueError, OverflowError):
                 self.error(instance, value)
         valid_class = (
             self.wrapper if isinstance(self.wrapper, type) else np.ndarray
-- 
2.43.0


From 645c47e1bd38dbd4648172b41f8c2f0fbc3d6945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:21 +0000
Subject: [PATCH 74/74] fix: values without a truth value are reported like
 other invalid booleans

---
 properties/basic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/properties/basic.py b/properties/basic.py
index 148e9c4..819f9d8 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -771,7 +771,10 @@ class Boolean(Property):
     def validate(self, instance, value):
         """Checks if value is a boolean"""
         if self.cast:
-            value = bool(value)
+            try:
+                value = bool(value)
+            except (TypeError, ValueError):
+                self.error(instance, value, extra='Cannot cast to boolean.')
         if not isinstance(value, BOOLEAN_TYPES):
             self.error(instance, value)
         return bool(value)
-- 
2.43.0

