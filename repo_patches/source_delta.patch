From a161e7de7f6fe5812ff2ff0045d6145070500700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:06 +0000
Subject: [PATCH 01/40] fix: numbers too large to convert are rejected with a
 ValidationError

---
 properties/basic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/properties/basic.py b/properties/basic.py
index 3ea5b5d..ca9c695 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -818,7 +818,7 @@ class Integer(Boolean):
                     value=value,
                     extra='Not within tolerance range of {}.'.format(TOL),
                 )
-        except (TypeError, ValueError):
+        except (TypeError, ValueError, OverflowError):
             self.error(instance, value, extra='Cannot cast to integer.')
         _in_bounds(self, instance, intval)
         return intval
@@ -872,7 +872,7 @@ class Float(Integer):
                     value=value,
                     extra='Not within tolerance range of {}.'.format(TOL),
                 )
-        except (TypeError, ValueError):
+        except (TypeError, ValueError, OverflowError):
             self.error(instance, value, extra='Cannot cast to float.')
         _in_bounds(self, instance, floatval)
         return floatval
@@ -922,7 +922,7 @@ class Complex(Boolean):
                     value=value,
                     extra='Not within tolerance range of {}.'.format(TOL),
                 )
-        except (TypeError, ValueError, AttributeError):
+        except (TypeError, ValueError, AttributeError, OverflowError):
             self.error(instance, value)
         return compval
 
-- 
2.43.0


From c32fc08201f19993b8615fffff5481d66415c08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:23 +0000
Subject: [PATCH 02/40] fix: entering the same listeners_disabled object twice
 restores the state

---
 properties/handlers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/properties/handlers.py b/properties/handlers.py
index 485ed99..ed2522b 100644
--- a/properties/handlers.py
+++ b/properties/handlers.py
@@ -28,6 +28,7 @@ class listeners_disabled(object):                                              #
 
     def __init__(self, disable_type=None):
         self.disable_type = disable_type
+        self._previous_states = []
 
     @property
     def disable_type(self):
@@ -53,14 +54,14 @@ class listeners_disabled(object):                                              #
         self._disable_type = value
 
     def __enter__(self):
-        self._previous_state = set(listeners_disabled._quarantine)
+        self._previous_states.append(set(listeners_disabled._quarantine))
         if self.disable_type is None:
             listeners_disabled._quarantine = set(LISTENER_TYPES)
         else:
             listeners_disabled._quarantine.update(self.disable_type)
 
     def __exit__(self, *exc):
-        listeners_disabled._quarantine = self._previous_state
+        listeners_disabled._quarantine = self._previous_states.pop()
 
 
 class validators_disabled(listeners_disabled):                                 #pylint: disable=invalid-name, too-few-public-methods
-- 
2.43.0


From 39a061fc3fe5a228cc4333b8fd62d7bdd6fcb40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:26 +0000
Subject: [PATCH 03/40] fix: a rejected in-place operator leaves the stored
 container observed

---
 properties/base/containers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/properties/base/containers.py b/properties/base/containers.py
index edb8fbf..f9a655f 100644
--- a/properties/base/containers.py
+++ b/properties/base/containers.py
@@ -83,8 +83,8 @@ def properties_mutator(cls, name, ioper=False):
         val = getattr(copy, name)(*args, **kwargs)
         if not ioper:
             setattr(self._instance, self._name, copy)
-        self._instance = None
-        self._name = ''
+            self._instance = None
+            self._name = ''
         return val
 
     wrapped = getattr(cls, name)
-- 
2.43.0


From ea7a567985631edae66a747c6da29eac370ea61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:28 +0000
Subject: [PATCH 04/40] fix: operators of observed containers defer to the
 other operand

---
 properties/base/containers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/properties/base/containers.py b/properties/base/containers.py
index f9a655f..fefe1e5 100644
--- a/properties/base/containers.py
+++ b/properties/base/containers.py
@@ -98,6 +98,8 @@ def properties_operator(cls, name):
     def wrapper(self, *args, **kwargs):
         """Perform operation and cast to container class"""
         output = getattr(super(cls, self), name)(*args, **kwargs)
+        if output is NotImplemented:
+            return output
         return cls(output)
 
     wrapped = getattr(cls, name)
-- 
2.43.0


From 4d56f78a1336c7a462ae9e04d79bd75f2ed58426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:50 +0000
Subject: [PATCH 05/40] fix: deserializing a Singleton does not modify the
 input dictionary

---
 properties/extras/singleton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properties/extras/singleton.py b/properties/extras/singleton.py
index bad960d..07c8004 100644
--- a/properties/extras/singleton.py
+++ b/properties/extras/singleton.py
@@ -77,12 +77,12 @@ class Singleton(six.with_metaclass(SingletonMetaclass, HasProperties)):
         """
         if not isinstance(value, dict):
             raise ValueError('HasProperties must deserialize from dictionary')
+        value = value.copy()
         identifier = value.pop('_singleton_id', value.get('name'))
         if identifier is None:
             raise ValueError('Singleton classes must contain identifying name')
         if identifier in cls._SINGLETONS:
             return cls._SINGLETONS[identifier]
-        value = value.copy()
         name = value.get('name', None)
         value.update({'name': identifier})
         newinst = super(Singleton, cls).deserialize(
-- 
2.43.0


From fd2e322e29ebee5ded9beeb37be356693c3fdc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:52 +0000
Subject: [PATCH 06/40] fix: a HasUID instance that fails to construct does not
 keep its uid

---
 properties/extras/uid.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/properties/extras/uid.py b/properties/extras/uid.py
index 20feeac..90086c2 100644
--- a/properties/extras/uid.py
+++ b/properties/extras/uid.py
@@ -28,7 +28,12 @@ class HasUID(base.HasProperties):
     )
 
     def __init__(self, **kwargs):
-        super(HasUID, self).__init__(**kwargs)
+        try:
+            super(HasUID, self).__init__(**kwargs)
+        except Exception:
+            for uid in [k for k, v in self._INSTANCES.items() if v is self]:
+                del self._INSTANCES[uid]
+            raise
         self._INSTANCES[self.uid] = self
 
     @handlers.validator('uid')
-- 
2.43.0


From 88f1dbe2bf8fd857ca9943c8dccac34d0cf472ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:55 +0000
Subject: [PATCH 07/40] fix: HasUID graphs with shared instances can be
 deserialized

---
 properties/extras/uid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/properties/extras/uid.py b/properties/extras/uid.py
index 90086c2..4e9768e 100644
--- a/properties/extras/uid.py
+++ b/properties/extras/uid.py
@@ -150,6 +150,8 @@ class HasUID(base.HasProperties):
             uid = kwargs.get('root', registry.get('__root__'))
         else:
             uid = value
+        if isinstance(registry.get(uid), HasUID):
+            return registry[uid]
         if uid in cls._INSTANCES and uid not in registry:
             return cls._INSTANCES[uid]
         if uid in cls._INSTANCES:
-- 
2.43.0


From 84f7b7e109f4f45d8c870a7b9f9517cff1ccae08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:57 +0000
Subject: [PATCH 08/40] fix: HasUID.deserialize honors assert_valid

---
 properties/extras/uid.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/properties/extras/uid.py b/properties/extras/uid.py
index 4e9768e..52b3d5c 100644
--- a/properties/extras/uid.py
+++ b/properties/extras/uid.py
@@ -143,7 +143,8 @@ class HasUID(base.HasProperties):
             input parameters.
         """
         registry = kwargs.pop('registry', None)
-        if registry is None:
+        root = registry is None
+        if root:
             if not isinstance(value, dict):
                 raise ValueError('HasUID must deserialize from dictionary')
             registry = value.copy()
@@ -176,6 +177,8 @@ class HasUID(base.HasProperties):
                 **kwargs
             )
         cls._INSTANCES[uid] = registry[uid]
+        if root and assert_valid:
+            registry[uid].validate()
         return registry[uid]
 
 
-- 
2.43.0


From 49782673ee8b30a1bbe2a0652c4be4733ec7a0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:26 +0000
Subject: [PATCH 09/40] fix: _defaults follow the method resolution order with
 multiple bases

---
 properties/base/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/properties/base/base.py b/properties/base/base.py
index 7bf8fb6..96be39e 100644
--- a/properties/base/base.py
+++ b/properties/base/base.py
@@ -220,9 +220,12 @@ class PropertyMetaclass(type):
         )
 
         # Update the class defaults to include inherited values
+        newcls._own_defaults = classdict.get('_defaults', dict())
         _defaults = dict()
         for parent in reversed(newcls.__mro__):
-            _defaults.update(getattr(parent, '_defaults', dict()))
+            _defaults.update(parent.__dict__.get(
+                '_own_defaults', parent.__dict__.get('_defaults', dict())
+            ))
 
         # Ensure defaults are valid and add them to the class
         for key, value in iteritems(_defaults):
-- 
2.43.0


From 3f18459b8f8463e3b568263cfd938a596da75528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:29 +0000
Subject: [PATCH 10/40] fix: values of dynamic and renamed properties are never
 stored on the instance

---
 properties/base/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/properties/base/base.py b/properties/base/base.py
index 96be39e..11b91ef 100644
--- a/properties/base/base.py
+++ b/properties/base/base.py
@@ -266,7 +266,8 @@ class PropertyMetaclass(type):
 
         # Set the GettableProperties from defaults - these are only set here
         for key, prop in iteritems(obj._props):
-            if not isinstance(prop, basic.Property):
+            if not isinstance(prop, (basic.Property, basic.DynamicProperty,
+                                     basic.Renamed)):
                 if key in obj._defaults:
                     val = obj._defaults[key]
                 else:
@@ -576,6 +577,8 @@ class HasProperties(with_metaclass(PropertyMetaclass, object)):
         kwargs.update({'trusted': trusted, 'strict': strict})
         newstate = {}
         for key, val in iteritems(state):
+            if isinstance(output_cls._props[key], basic.DynamicProperty):
+                continue
             newstate[key] = output_cls._props[key].deserialize(val, **kwargs)
         mutable, immutable = utils.filter_props(output_cls, newstate, False)
         with handlers.listeners_disabled():
-- 
2.43.0


From fcd4ab1ef6f9dee07fd39b6214317b1f0cbb9ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:32 +0000
Subject: [PATCH 11/40] fix: vector arrays accept tuples of direction words and
 do not modify their input

---
 properties/math.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/properties/math.py b/properties/math.py
index bd44fa2..e255fcb 100644
--- a/properties/math.py
+++ b/properties/math.py
@@ -445,6 +445,7 @@ class Vector3Array(BaseVector):
         if not isinstance(value, (tuple, list, np.ndarray)):
             self.error(instance, value)
         if isinstance(value, (tuple, list)):
+            value = list(value)
             for i, val in enumerate(value):
                 if isinstance(val, string_types):
                     if val.upper() not in VECTOR_DIRECTIONS:
@@ -515,6 +516,7 @@ class Vector2Array(BaseVector):
         if not isinstance(value, (tuple, list, np.ndarray)):
             self.error(instance, value)
         if isinstance(value, (tuple, list)):
+            value = list(value)
             for i, val in enumerate(value):
                 if isinstance(val, string_types):
                     if (
-- 
2.43.0


From 229619cf71d532785335a75c90d5e1da8a28f4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:13 +0000
Subject: [PATCH 12/40] fix: renamed properties are serialized and deserialized
 like their target

---
 properties/base/base.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/properties/base/base.py b/properties/base/base.py
index 11b91ef..0c4c099 100644
--- a/properties/base/base.py
+++ b/properties/base/base.py
@@ -56,6 +56,16 @@ def build_from_bases(bases, classdict, attr, attr_dict):
 
 
 
+def _target_prop(props, key):
+    """Returns the Property a name refers to, following Renamed Properties"""
+    prop = props[key]
+    for _ in props:
+        if not isinstance(prop, basic.Renamed) or prop.new_name not in props:
+            break
+        prop = props[prop.new_name]
+    return prop
+
+
 class PropertyMetaclass(type):
     """Metaclass to establish behavior of **HasProperties** classes
 
@@ -509,7 +519,9 @@ class HasProperties(with_metaclass(PropertyMetaclass, object)):
             else:
                 prop_source = self._backend
             data = (
-                (key, self._props[key].serialize(getattr(self, key), **kwargs))
+                (key, _target_prop(self._props, key).serialize(
+                    getattr(self, key), **kwargs
+                ))
                 for key in prop_source
             )
             json_dict = {k: v for k, v in data if v is not None}
@@ -579,7 +591,9 @@ class HasProperties(with_metaclass(PropertyMetaclass, object)):
         for key, val in iteritems(state):
             if isinstance(output_cls._props[key], basic.DynamicProperty):
                 continue
-            newstate[key] = output_cls._props[key].deserialize(val, **kwargs)
+            newstate[key] = _target_prop(output_cls._props, key).deserialize(
+                val, **kwargs
+            )
         mutable, immutable = utils.filter_props(output_cls, newstate, False)
         with handlers.listeners_disabled():
             if instance is None:
-- 
2.43.0


From cd1b2638de07f1e29cfb967ef4fbd031fb46222a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:17 +0000
Subject: [PATCH 13/40] fix: infinite and nan floats are equal to themselves

---
 properties/basic.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/properties/basic.py b/properties/basic.py
index ca9c695..23192e4 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -879,7 +879,11 @@ class Float(Integer):
 
     def equal(self, value_a, value_b):
         try:
-            return abs(value_a - value_b) <= TOL
+            return bool(
+                abs(value_a - value_b) <= TOL or
+                value_a == value_b or
+                (value_a != value_a and value_b != value_b)                    #pylint: disable=comparison-with-itself
+            )
         except TypeError:
             return False
 
-- 
2.43.0


From 250155e7efdedf537c180b72d1771746493d3a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:20 +0000
Subject: [PATCH 14/40] fix: URL properties describe themselves

---
 properties/extras/web.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/properties/extras/web.py b/properties/extras/web.py
index 6c8f40d..ad3fc5f 100644
--- a/properties/extras/web.py
+++ b/properties/extras/web.py
@@ -67,3 +67,4 @@ class URL(basic.String):
             info += ', path or query params removed'
         if self.remove_fragment:
             info += ', fragment removed'
+        return info
-- 
2.43.0


From 717a113bb4a15dce84f0a9440b2b0e4a41806c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:23 +0000
Subject: [PATCH 15/40] fix: task status can be reported without a progress
 value

---
 properties/extras/task.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/properties/extras/task.py b/properties/extras/task.py
index 82e5264..5c1f9d6 100644
--- a/properties/extras/task.py
+++ b/properties/extras/task.py
@@ -83,7 +83,10 @@ class BaseTask(object):
         status = Instance('', TaskStatus).validate(None, status)
         print(r'{taskname} | {percent:>3}% | {message}'.format(
             taskname=self.__class__.__name__,
-            percent=int(round(100*status.progress)),
+            percent=(
+                '' if status.progress is None
+                else int(round(100*status.progress))
+            ),
             message=status.message if status.message else '',
         ))
 
-- 
2.43.0


From 8e64454c0a008efa0e3a3e289ac3f610c86c95c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:25 +0000
Subject: [PATCH 16/40] fix: the color name firebrick is spelled correctly

---
 properties/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properties/basic.py b/properties/basic.py
index 23192e4..cd20b87 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -1532,7 +1532,7 @@ COLORS_NAMED = dict(
     darkslategray="2F4F4F", darkslategrey="2F4F4F", darkturquoise="00CED1",
     darkviolet="9400D3", deeppink="FF1493", deepskyblue="00BFFF",
     dimgray="696969", dimgrey="696969", dodgerblue="1E90FF",
-    irebrick="B22222", floralwhite="FFFAF0", forestgreen="228B22",
+    firebrick="B22222", floralwhite="FFFAF0", forestgreen="228B22",
     fuchsia="FF00FF", gainsboro="DCDCDC", ghostwhite="F8F8FF",
     gold="FFD700", goldenrod="DAA520", gray="808080",
     grey="808080", green="008000", greenyellow="ADFF2F",
-- 
2.43.0


From d11c2c217543755b0e9669cfc6da93a5d9116d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:28 +0000
Subject: [PATCH 17/40] fix: StringChoice does not modify the dictionary of
 choices it is given

---
 properties/basic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/properties/basic.py b/properties/basic.py
index cd20b87..e2617a4 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -1102,6 +1102,7 @@ class StringChoice(Property):
             value = collections.OrderedDict((v, []) for v in value)
         if not isinstance(value, dict):
             raise TypeError('choices must be a set, list, tuple, or dict')
+        value = value.copy()
         for key, val in value.items():
             if isinstance(val, (set, list, tuple)):
                 value[key] = list(val)
-- 
2.43.0


From 8fed45cd05c1d95d5b5b628bde5ff82fa9c6566c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:30 +0000
Subject: [PATCH 18/40] fix: loading an integer property does not drop a
 fractional part

---
 properties/basic.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/properties/basic.py b/properties/basic.py
index e2617a4..c3f99d6 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -840,7 +840,13 @@ class Integer(Boolean):
 
     @staticmethod
     def from_json(value, **kwargs):
-        return int(value)
+        try:
+            intval = int(value)
+        except OverflowError:
+            raise ValueError('Could not load integer: {}'.format(value))
+        if not isinstance(value, string_types) and abs(value - intval) > TOL:
+            raise ValueError('Could not load integer: {}'.format(value))
+        return intval
 
 
 class Float(Integer):
-- 
2.43.0


From 013b5cf4dc719640d9c051104ea96feb835c8503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:33 +0000
Subject: [PATCH 19/40] fix: deserializing an array with several valid dtypes
 keeps its values

---
 properties/math.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/properties/math.py b/properties/math.py
index e255fcb..8f8b205 100644
--- a/properties/math.py
+++ b/properties/math.py
@@ -221,7 +221,9 @@ class Array(Property):
             return self.deserializer(value, **kwargs)
         if value is None:
             return None
-        return self.wrapper(value).astype(self.dtype[0])
+        # Use the most general dtype so no values are truncated
+        dtype = max(self.dtype, key=[bool, int, float, complex].index)
+        return self.wrapper(value).astype(dtype)
 
     @staticmethod
     def to_json(value, **kwargs):
-- 
2.43.0


From fbeed2b20ab6a0203c20e1cc2f22b39d792f7728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:04 +0000
Subject: [PATCH 20/40] fix: loading a number that is too large raises a
 ValueError

---
 properties/basic.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/properties/basic.py b/properties/basic.py
index c3f99d6..5fcbc59 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -901,7 +901,10 @@ class Float(Integer):
 
     @staticmethod
     def from_json(value, **kwargs):
-        return float(value)
+        try:
+            return float(value)
+        except OverflowError:
+            raise ValueError('Could not load float: {}'.format(value))
 
 
 class Complex(Boolean):
@@ -950,7 +953,10 @@ class Complex(Boolean):
 
     @staticmethod
     def from_json(value, **kwargs):
-        return complex(value)
+        try:
+            return complex(value)
+        except OverflowError:
+            raise ValueError('Could not load complex: {}'.format(value))
 
 
 class String(Property):
-- 
2.43.0


From b3bb578c3368e62056f52e07645d12181de40f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:06 +0000
Subject: [PATCH 21/40] fix: inherited properties and listeners follow the
 method resolution order

---
 properties/base/base.py | 51 +++++++++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 20 deletions(-)

diff --git a/properties/base/base.py b/properties/base/base.py
index 0c4c099..d3aa2ff 100644
--- a/properties/base/base.py
+++ b/properties/base/base.py
@@ -22,29 +22,41 @@ else:
 GENERIC_ERRORS = (ValueError, KeyError, TypeError, AttributeError)
 
 
+def _merge_mros(bases):
+    """Returns the method resolution order of a class with these bases"""
+    output = []
+    orders = [list(base.__mro__) for base in bases] + [list(bases)]
+    while any(orders):
+        orders = [order for order in orders if order]
+        for order in orders:
+            if not any(order[0] in other[1:] for other in orders):
+                break
+        else:
+            raise TypeError('Cannot create a consistent method resolution '
+                            'order (MRO) for bases')
+        item = order[0]
+        output.append(item)
+        for order in orders:
+            if order[0] is item:
+                del order[0]
+    return output
+
+
 def build_from_bases(bases, classdict, attr, attr_dict):
     """Helper function to build private HasProperties attributes"""
     output = OrderedDict()
-    output_keys = set()
-    all_bases = []
-    # Go through the bases from furthest to nearest ancestor
-    for base in reversed(bases):
-        # Only keep the items that are still defined on the bases
-        if base is not object and isinstance(base, PropertyMetaclass):
-            output_keys = output_keys.union(getattr(base, attr))
-        # Collect all bases so we ensure overridden items are assigned
-        # in the correct order
-        for item in reversed(base.__mro__):
-            if item is object or not isinstance(item, PropertyMetaclass):
-                continue
-            if item not in all_bases:
-                all_bases.append(item)
-    # Update the items in reverse MRO order; only keep those that are
-    # defined on the bases
-    for base in all_bases:
-        for key, val in iteritems(getattr(base, attr)):
-            if key in base.__dict__ and key in output_keys:
+    all_bases = _merge_mros(bases)
+    # Update the items in reverse MRO order, so overridden items keep the
+    # position of the furthest ancestor and the value of the nearest
+    for base in reversed(all_bases):
+        for key, val in iteritems(getattr(base, attr, dict())):
+            if key in base.__dict__:
                 output.update({key: val})
+    # Only keep items that are not overridden by something else
+    for key in list(output):
+        nearest = next(base for base in all_bases if key in base.__dict__)
+        if key not in getattr(nearest, attr, dict()):
+            output.pop(key)
     # Remove all items that were overridden by this class; this is
     # potentially a superset of the items added back in the next step.
     for key in classdict:
@@ -55,7 +67,6 @@ def build_from_bases(bases, classdict, attr, attr_dict):
     return output
 
 
-
 def _target_prop(props, key):
     """Returns the Property a name refers to, following Renamed Properties"""
     prop = props[key]
-- 
2.43.0


From 18067bd3945711592fc1b3ff3bade79aed94cba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:08 +0000
Subject: [PATCH 22/40] fix: equality of objects does not compare renamed
 properties a second time

---
 properties/base/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/properties/base/base.py b/properties/base/base.py
index d3aa2ff..2e6b251 100644
--- a/properties/base/base.py
+++ b/properties/base/base.py
@@ -675,6 +675,8 @@ def equal(value_a, value_b):
         if value_a.__class__ is not value_b.__class__:
             return False
         for prop in itervalues(value_a._props):
+            if isinstance(prop, basic.Renamed):
+                continue
             prop_a = getattr(value_a, prop.name)
             prop_b = getattr(value_b, prop.name)
             if prop_a is None and prop_b is None:
-- 
2.43.0


From a2d0621219d93bc734b1fffce538ff1c106c4d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:11 +0000
Subject: [PATCH 23/40] fix: dynamic property values are serialized by the
 decorating property

---
 properties/basic.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/properties/basic.py b/properties/basic.py
index 5fcbc59..0eed096 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -518,6 +518,14 @@ class DynamicProperty(GettableProperty):                                       #
         """Validate using prop validation"""
         return self.prop.validate(instance, value)
 
+    def serialize(self, value, **kwargs):
+        """Serialize using prop serialization"""
+        return self.prop.serialize(value, **kwargs)
+
+    def deserialize(self, value, **kwargs):
+        """Deserialize using prop deserialization"""
+        return self.prop.deserialize(value, **kwargs)
+
     def setter(self, func):
         """Register a set function for the DynamicProperty
 
-- 
2.43.0


From 2c1f6da4a7e02b03d3d5b1ef8d524c8f70dde5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:13 +0000
Subject: [PATCH 24/40] fix: union values are compared even if some
 alternatives cannot compare them

---
 properties/base/union.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/properties/base/union.py b/properties/base/union.py
index 1c800c3..6b75842 100644
--- a/properties/base/union.py
+++ b/properties/base/union.py
@@ -252,7 +252,13 @@ class Union(basic.Property):
         return self.from_json(value, **kwargs)
 
     def equal(self, value_a, value_b):
-        return any((prop.equal(value_a, value_b) for prop in self.props))
+        for prop in self.props:
+            try:
+                if prop.equal(value_a, value_b):
+                    return True
+            except GENERIC_ERRORS:
+                continue
+        return False
 
     @staticmethod
     def to_json(value, **kwargs):
-- 
2.43.0


From efa4f4e6b336873538bd84975087f92bc0f4f7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:35 +0000
Subject: [PATCH 25/40] fix: undefined properties are not passed to serializers
 when dynamic ones are saved

---
 properties/base/base.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/properties/base/base.py b/properties/base/base.py
index 2e6b251..482552c 100644
--- a/properties/base/base.py
+++ b/properties/base/base.py
@@ -529,11 +529,13 @@ class HasProperties(with_metaclass(PropertyMetaclass, object)):
                 prop_source = self._props
             else:
                 prop_source = self._backend
+            values = ((key, getattr(self, key)) for key in prop_source)
+            # Serializers only see undefined values of dynamic properties
             data = (
-                (key, _target_prop(self._props, key).serialize(
-                    getattr(self, key), **kwargs
-                ))
-                for key in prop_source
+                (key, _target_prop(self._props, key).serialize(value, **kwargs))
+                for key, value in values
+                if value is not None or key in self._backend or
+                isinstance(self._props[key], basic.DynamicProperty)
             )
             json_dict = {k: v for k, v in data if v is not None}
             if include_class:
-- 
2.43.0


From 121649432bfc631d84ea5461df86d2470b4f2c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:40 +0000
Subject: [PATCH 26/40] fix: comparing a dictionary value with an array is not
 an error

---
 properties/base/containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properties/base/containers.py b/properties/base/containers.py
index fefe1e5..862c0c3 100644
--- a/properties/base/containers.py
+++ b/properties/base/containers.py
@@ -667,7 +667,7 @@ class Dictionary(basic.Property):
                 if self.value_prop.equal(value_a[key_a], value_b[key_a]):
                     copy_b.pop(key_a)
             return len(copy_b) == 0
-        except (KeyError, TypeError, AttributeError):
+        except (LookupError, TypeError, AttributeError):
             return False
 
 
-- 
2.43.0


From df86e858ccd031dbd85ca9ac95ce44ebb58655bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:42 +0000
Subject: [PATCH 27/40] fix: a union may have array defaults

---
 properties/base/union.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/properties/base/union.py b/properties/base/union.py
index 6b75842..4d37a44 100644
--- a/properties/base/union.py
+++ b/properties/base/union.py
@@ -157,7 +157,12 @@ class Union(basic.Property):
                 continue
             if prop_def is utils.undefined:
                 prop_def = prop.default
-            elif prop_def != prop.default:
+                continue
+            try:
+                ignored = bool(prop_def != prop.default)
+            except ValueError:
+                ignored = True # arrays of several values
+            if ignored:
                 warn('Union prop default ignored: {}'.format(prop.default),
                      RuntimeWarning)
 
-- 
2.43.0


From 534127112c547cd21b742a416aede596915f43fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:02 +0000
Subject: [PATCH 28/40] fix: scaling a vector to a given length leaves the
 caller's vector unchanged

---
 properties/math.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/properties/math.py b/properties/math.py
index 8f8b205..6f3fe48 100644
--- a/properties/math.py
+++ b/properties/math.py
@@ -283,6 +283,8 @@ class BaseVector(Array):
         value = super(BaseVector, self).validate(instance, value)
 
         if self.length is not None:
+            # Scale a copy; an uncoerced value still belongs to the caller
+            value = value.copy()
             try:
                 value.length = self._length_array(value)
             except ZeroDivisionError:
-- 
2.43.0


From a0c8d4f15ad2ce859343b0be1688c82f3023b34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:21 +0000
Subject: [PATCH 29/40] fix: arrays without dimensions can be serialized

---
 properties/math.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/properties/math.py b/properties/math.py
index 6f3fe48..1812598 100644
--- a/properties/math.py
+++ b/properties/math.py
@@ -232,9 +232,9 @@ class Array(Property):
         nan values are converted to string 'nan', inf values to 'inf'.
         """
         def _recurse_list(val):
-            if val and isinstance(val[0], list):
+            if isinstance(val, list):
                 return [_recurse_list(v) for v in val]
-            return [str(v) if np.isnan(v) or np.isinf(v) else v for v in val]
+            return str(val) if np.isnan(val) or np.isinf(val) else val
         return _recurse_list(value.tolist())
 
     @staticmethod
-- 
2.43.0


From 4cb70f096db0c14fda86fe6ecaeb851bf0990023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:42 +0000
Subject: [PATCH 30/40] fix: infinite and nan complex numbers are equal to
 themselves

---
 properties/basic.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/properties/basic.py b/properties/basic.py
index 0eed096..c71b524 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -949,9 +949,14 @@ class Complex(Boolean):
 
     def equal(self, value_a, value_b):
         try:
-            real_equal = abs(value_a.real - value_b.real) <= TOL
-            imag_equal = abs(value_a.imag - value_b.imag) <= TOL
-            return real_equal and imag_equal
+            return all(
+                abs(part_a - part_b) <= TOL or
+                part_a == part_b or
+                (part_a != part_a and part_b != part_b)                        #pylint: disable=comparison-with-itself
+                for part_a, part_b in (
+                    (value_a.real, value_b.real), (value_a.imag, value_b.imag)
+                )
+            )
         except (TypeError, AttributeError):
             return False
 
-- 
2.43.0


From e88e47b75c41580d0f6284cda656ac074f075d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:27 +0000
Subject: [PATCH 31/40] fix: ImagePNG checks the content from the start of the
 file, and rejects empty files with a ValueError

---
 properties/images.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/properties/images.py b/properties/images.py
index aef744a..e388df9 100644
--- a/properties/images.py
+++ b/properties/images.py
@@ -63,9 +63,10 @@ class ImagePNG(File):
             pass
         else:
             value = super(ImagePNG, self).validate(instance, value)
+            value.seek(0)
             try:
                 png.Reader(value).validate_signature()
-            except png.FormatError:
+            except (png.FormatError, EOFError):
                 self.error(instance, value, extra='Open file is not PNG.')
             value.seek(0)
         # Write input to new bytestream
-- 
2.43.0


From 10d29c05f26025e91a8f568d2ca73431fd5a50c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:30 +0000
Subject: [PATCH 32/40] fix: ImagePNG serializes the whole image, wherever its
 stream stands

---
 properties/images.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/properties/images.py b/properties/images.py
index e388df9..e37dac3 100644
--- a/properties/images.py
+++ b/properties/images.py
@@ -89,6 +89,7 @@ class ImagePNG(File):
 
         to_json assumes that value has passed validation.
         """
+        value.seek(0)
         b64rep = base64.b64encode(value.read())
         value.seek(0)
         jsonrep = '{preamble}{b64}'.format(
-- 
2.43.0


From db839bbe274db0de15ba3debd516ab6e35cfc1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:33 +0000
Subject: [PATCH 33/40] fix: ImagePNG rejects an image that was closed

---
 properties/images.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properties/images.py b/properties/images.py
index e37dac3..3ef4d46 100644
--- a/properties/images.py
+++ b/properties/images.py
@@ -56,7 +56,7 @@ class ImagePNG(File):
         Returns an open bytestream of the image
         """
         # Pass if already validated
-        if getattr(value, '__valid__', False):
+        if getattr(value, '__valid__', False) and not value.closed:
             return value
         # Validate that value is PNG
         if isinstance(value, png.Image):
-- 
2.43.0


From a5441492893540bbb33c6e08164e514ef82bb2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:36 +0000
Subject: [PATCH 34/40] fix: a Singleton class without a name property could
 not be deserialized

---
 properties/extras/singleton.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/properties/extras/singleton.py b/properties/extras/singleton.py
index 07c8004..c1561de 100644
--- a/properties/extras/singleton.py
+++ b/properties/extras/singleton.py
@@ -84,7 +84,15 @@ class Singleton(six.with_metaclass(SingletonMetaclass, HasProperties)):
         if identifier in cls._SINGLETONS:
             return cls._SINGLETONS[identifier]
         name = value.get('name', None)
-        value.update({'name': identifier})
+        output_cls = cls._deserialize_class(
+            value.get('__class__'), trusted, strict
+        )
+        if 'name' in output_cls._props:
+            value.update({'name': identifier})
+        else:
+            kwargs.update({'_instance': super(
+                SingletonMetaclass, output_cls
+            ).__call__(identifier)})
         newinst = super(Singleton, cls).deserialize(
             value,
             trusted=trusted,
@@ -92,6 +100,7 @@ class Singleton(six.with_metaclass(SingletonMetaclass, HasProperties)):
             assert_valid=assert_valid,
             **kwargs
         )
+        newinst = output_cls._SINGLETONS.setdefault(identifier, newinst)
         if name:
             newinst.name = name
         return newinst
-- 
2.43.0


From 46005e8479b4492a42293702854f85d473229663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:24 +0000
Subject: [PATCH 35/40] fix: a Singleton whose deserialization failed stayed
 registered

---
 properties/extras/singleton.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/properties/extras/singleton.py b/properties/extras/singleton.py
index c1561de..68a4b66 100644
--- a/properties/extras/singleton.py
+++ b/properties/extras/singleton.py
@@ -93,14 +93,20 @@ class Singleton(six.with_metaclass(SingletonMetaclass, HasProperties)):
             kwargs.update({'_instance': super(
                 SingletonMetaclass, output_cls
             ).__call__(identifier)})
-        newinst = super(Singleton, cls).deserialize(
-            value,
-            trusted=trusted,
-            strict=strict,
-            assert_valid=assert_valid,
-            **kwargs
-        )
-        newinst = output_cls._SINGLETONS.setdefault(identifier, newinst)
-        if name:
-            newinst.name = name
+        known = identifier in output_cls._SINGLETONS
+        try:
+            newinst = super(Singleton, cls).deserialize(
+                value,
+                trusted=trusted,
+                strict=strict,
+                assert_valid=assert_valid,
+                **kwargs
+            )
+            newinst = output_cls._SINGLETONS.setdefault(identifier, newinst)
+            if name:
+                newinst.name = name
+        except Exception:
+            if not known:
+                output_cls._SINGLETONS.pop(identifier, None)
+            raise
         return newinst
-- 
2.43.0


From 368a8fd5f2e53b542b5e09f41c24db324b21c11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:56 +0000
Subject: [PATCH 36/40] fix: File properties with mode wb+ rejected the files
 they opened

---
 properties/basic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/properties/basic.py b/properties/basic.py
index c71b524..94147e4 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -1420,7 +1420,10 @@ class File(Property):
             self.error(instance, value, extra='Not a file-like object')
         if not hasattr(value, 'mode') or self.valid_modes is None:
             pass
-        elif value.mode not in self.valid_modes:
+        elif value.mode not in self.valid_modes and not (
+                # open files with mode 'wb+' report 'rb+'
+                value.mode == 'rb+' and 'wb+' in self.valid_modes
+        ):
             self.error(instance, value,
                        extra='Invalid mode: {}'.format(value.mode))
         if getattr(value, 'closed', False):
-- 
2.43.0


From c0ccd7279b48cfa18c34b4a2cb86912c3a6bd14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:53 +0000
Subject: [PATCH 37/40] fix: a numeric property may be declared with a limit
 and an explicit None for the other

---
 properties/basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/properties/basic.py b/properties/basic.py
index 94147e4..2eba832 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -801,7 +801,7 @@ class Integer(Boolean):
 
     @min.setter
     def min(self, value):
-        if self.max is not None and value > self.max:
+        if None not in (value, self.max) and value > self.max:
             raise TypeError('min must be <= max')
         self._min = value
 
@@ -812,7 +812,7 @@ class Integer(Boolean):
 
     @max.setter
     def max(self, value):
-        if self.min is not None and value < self.min:
+        if None not in (value, self.min) and value < self.min:
             raise TypeError('max must be >= min')
         self._max = value
 
-- 
2.43.0


From d0e98acb5c2d84a2c213fc362f79568c9bae71d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:55 +0000
Subject: [PATCH 38/40] fix: equality of cyclic objects does not depend on the
 order of the operands

---
 properties/base/base.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/properties/base/base.py b/properties/base/base.py
index 482552c..39d0c17 100644
--- a/properties/base/base.py
+++ b/properties/base/base.py
@@ -668,14 +668,15 @@ def equal(value_a, value_b):
             not isinstance(value_b, HasProperties)
     ):
         return value_a == value_b
-    if getattr(value_a, '_testing_equality', False):
+    if value_a is value_b:
+        return True
+    if value_a.__class__ is not value_b.__class__:
+        return False
+    pending = getattr(value_a, '_testing_equality', ())
+    if any(other is value_b for other in pending):
         return False
-    value_a._testing_equality = True                                           #pylint: disable=protected-access
+    value_a._testing_equality = pending + (value_b,)                           #pylint: disable=protected-access
     try:
-        if value_a is value_b:
-            return True
-        if value_a.__class__ is not value_b.__class__:
-            return False
         for prop in itervalues(value_a._props):
             if isinstance(prop, basic.Renamed):
                 continue
@@ -692,7 +693,7 @@ def equal(value_a, value_b):
             return False
         return True
     finally:
-        value_a._testing_equality = False                                      #pylint: disable=protected-access
+        value_a._testing_equality = pending                                    #pylint: disable=protected-access
 
 
 def copy(value, **kwargs):
-- 
2.43.0


From 6d779dd9941561438f450672679115761c9f3986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:46 +0000
Subject: [PATCH 39/40] fix: vectors holding nan or inf could be serialized but
 not loaded again

---
 properties/math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properties/math.py b/properties/math.py
index 1812598..5b4dfd1 100644
--- a/properties/math.py
+++ b/properties/math.py
@@ -223,7 +223,7 @@ class Array(Property):
             return None
         # Use the most general dtype so no values are truncated
         dtype = max(self.dtype, key=[bool, int, float, complex].index)
-        return self.wrapper(value).astype(dtype)
+        return self.wrapper(np.array(value).astype(dtype))
 
     @staticmethod
     def to_json(value, **kwargs):
-- 
2.43.0


From 56330f9f3733dae3781d5362095c2ed4d00aed2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:13 +0000
Subject: [PATCH 40/40] fix: a link that failed to be created still linked some
 of its items

---
 properties/link.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/properties/link.py b/properties/link.py
index 6afaa50..6800089 100644
--- a/properties/link.py
+++ b/properties/link.py
@@ -185,11 +185,17 @@ class link(object):                                                            #
         if kwargs.get('transform', None) is not None:
             raise ValueError('Only directional_links may specify transform')
         self._dlinks = ()
-        for i, item_i in enumerate(items):
-            for j, item_j in enumerate(items):
-                if i == j:
-                    continue
-                self._dlinks += (directional_link(item_i, item_j, **kwargs),)
+        try:
+            for i, item_i in enumerate(items):
+                for j, item_j in enumerate(items):
+                    if i == j:
+                        continue
+                    dlink = directional_link(item_i, item_j, **kwargs)
+                    self._dlinks += (dlink,)
+        except Exception:
+            # There will be no link object to unlink the items linked so far
+            self.unlink()
+            raise
 
     @property
     def dlinks(self):
-- 
2.43.0

