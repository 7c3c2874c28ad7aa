From 728ef6ecd74234f51c2fc2eae74ac7f85c0caa18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:30 +0000
Subject: [PATCH 01/41] fix: Context.rewind stopping at the top frame must not
 drop the whole stack

---
 pilo/context.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pilo/context.py b/pilo/context.py
index 103b1e1..6a384bb 100644
--- a/pilo/context.py
+++ b/pilo/context.py
@@ -136,11 +136,12 @@ class Context(threading.local):
         """
         for i, frame in enumerate(reversed(self.stack)):
             if stop(frame):
-                frames = self.stack[-i:]
+                depth = len(self.stack) - i
+                frames = self.stack[depth:]
                 break
         else:
             raise RewindDidNotStop()
-        del self.stack[-i:]
+        del self.stack[depth:]
         if self.src_path is not None:
             for frame in frames:
                 if 'src_path' in frame:
-- 
2.43.0


From 5a39219c464d13f7021708dc008f052b1760aa6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:30 +0000
Subject: [PATCH 02/41] fix: Path.value under a missing parent stays missing
 when read again

---
 pilo/source/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/source/__init__.py b/pilo/source/__init__.py
index ed5ece5..1444db2 100644
--- a/pilo/source/__init__.py
+++ b/pilo/source/__init__.py
@@ -101,9 +101,9 @@ class Path(collections.MutableSequence):
             i, value = 0, self.root
 
         for part in self.parts[i:]:
-            value = part.value = self.resolve(value, part)
             if value is NONE:
                 break
+            value = part.value = self.resolve(value, part)
 
         return value
 
-- 
2.43.0


From e4441184ded6987920f29bc5cc537207e1e88e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:30 +0000
Subject: [PATCH 03/41] fix: parser lookup for a subclass of a parsable type

---
 pilo/source/__init__.py | 2 +-
 pilo/source/json.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pilo/source/__init__.py b/pilo/source/__init__.py
index 1444db2..0b4ff5c 100644
--- a/pilo/source/__init__.py
+++ b/pilo/source/__init__.py
@@ -282,7 +282,7 @@ class ParserMixin(object):
 
             for mro_t in inspect.getmro(t):
                 if mro_t in self.parsers:
-                    self.parsers[t] = self.types[mro_t]
+                    self.parsers[t] = self.parsers[mro_t]
                     return self.parsers[t]
         if default is not NONE:
             return default
diff --git a/pilo/source/json.py b/pilo/source/json.py
index 118bf5a..795d439 100644
--- a/pilo/source/json.py
+++ b/pilo/source/json.py
@@ -105,7 +105,7 @@ class JsonSource(Source):
                 return self.parsers[t]
             for mro_t in inspect.getmro(t):
                 if mro_t in self.parsers:
-                    self.parsers[t] = self.types[mro_t]
+                    self.parsers[t] = self.parsers[mro_t]
                     return self.parsers[t]
         if default is not NONE:
             return default
-- 
2.43.0


From 93ca764aa44a0600a7041a13e735605ec4449918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:30 +0000
Subject: [PATCH 04/41] fix: integers too large for a float are parse errors
 (native sources)

---
 pilo/source/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pilo/source/__init__.py b/pilo/source/__init__.py
index 0b4ff5c..1196707 100644
--- a/pilo/source/__init__.py
+++ b/pilo/source/__init__.py
@@ -238,7 +238,10 @@ class ParserMixin(object):
         if isinstance(value, (float)):
             pass
         elif isinstance(value, six.integer_types):
-            value = float(value)
+            try:
+                value = float(value)
+            except OverflowError:
+                raise self.error(path, '"{0}" is not a float'.format(value))
         elif isinstance(value, six.string_types):
             try:
                 value = float(value)
-- 
2.43.0


From d022dd73cfe1612a5b92aa4611ad4ef0035937d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:30 +0000
Subject: [PATCH 05/41] fix: integers too large for a float are parse errors
 (JSON sources)

---
 pilo/source/json.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pilo/source/json.py b/pilo/source/json.py
index 795d439..cdb8fb2 100644
--- a/pilo/source/json.py
+++ b/pilo/source/json.py
@@ -67,7 +67,10 @@ class JsonSource(Source):
         if isinstance(value, (float)):
             return value
         if isinstance(value, six.integer_types):
-            return float(value)
+            try:
+                return float(value)
+            except OverflowError:
+                raise self.error(field, '{0} is not a float'.format(value))
         if not self.strict:
             if isinstance(value, six.string_types):
                 try:
-- 
2.43.0


From 95a8c8be3816c34474372b68ca575a812b47bc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:30 +0000
Subject: [PATCH 06/41] fix: JsonSource no longer passes json.loads its removed
 encoding argument

---
 pilo/source/json.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pilo/source/json.py b/pilo/source/json.py
index cdb8fb2..4d97b3e 100644
--- a/pilo/source/json.py
+++ b/pilo/source/json.py
@@ -40,7 +40,9 @@ class JsonSource(Source):
         self.strict = strict
         self.location = location
         self.text = text
-        self.data = json.loads(text, encoding=encoding)
+        if encoding is not None and isinstance(text, six.binary_type):
+            text = text.decode(encoding)
+        self.data = json.loads(text)
 
     def as_string(self, field, value):
         if isinstance(value, six.string_types):
-- 
2.43.0


From 8c9f14eb691fb86f14f5b67f6eee84699e0b3f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:30 +0000
Subject: [PATCH 07/41] fix: text that is not a decimal is an Invalid error,
 not an escaping InvalidOperation

---
 pilo/fields.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index ea6d191..6d28989 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -857,7 +857,10 @@ class Decimal(Number):
         if isinstance(path.value, numbers.Number):
             return decimal.Decimal(path.value)
         value = path.primitive(six.string_types[0])
-        return decimal.Decimal(value)
+        try:
+            return decimal.Decimal(value)
+        except decimal.InvalidOperation:
+            raise ValueError('"{0}" is not a decimal'.format(value))
 
 
 class Boolean(Field):
-- 
2.43.0


From 186681318d3b19ede51826bb4d01e7894c47ef1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:30 +0000
Subject: [PATCH 08/41] fix: Float.pattern parses floats, not integers

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 6d28989..87c092f 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -841,7 +841,7 @@ class Float(Number):
                 raise ValueError('{0} does not match pattern "{1}"'.format(
                     value, pattern_re.pattern
                 ))
-            return int(m.group(0))
+            return float(m.group(0))
 
         return self.parse(parse)
 
-- 
2.43.0


From b0e09796192961d30e28598ff07cdb8caf22a151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:30 +0000
Subject: [PATCH 09/41] fix: a date matching none of its formats is Invalid,
 not None

---
 pilo/fields.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 87c092f..7b914cd 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -921,7 +921,7 @@ class Date(Field, RangeMixin):
                 try:
                     return iso8601.parse_date(value).date()
                 except iso8601.ParseError as ex:
-                    if i == len(formats):
+                    if i == len(formats) - 1:
                         self.ctx.errors.invalid(str(ex))
                         return ERROR
 
@@ -929,7 +929,7 @@ class Date(Field, RangeMixin):
                 try:
                     return datetime.datetime.strptime(value, spec).date()
                 except ValueError as ex:
-                    if i == len(formats):
+                    if i == len(formats) - 1:
                         self.ctx.errors.invalid(str(ex))
                         return ERROR
 
-- 
2.43.0


From 1970e7cbb33b0c9ea8b256e162444c8d6f801ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:30 +0000
Subject: [PATCH 10/41] fix: Code.compile executes the code in the module it
 returns

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 7b914cd..cc062d8 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1223,7 +1223,7 @@ class Code(Field):
     def compile(cls, name, code, **code_globals):
         module = imp.new_module('<{0}>'.format(name))
         module.__dict__.update(code_globals)
-        exec(code) in module.__dict__
+        six.exec_(code, module.__dict__)
         return module
 
     def _parse(self, path):
-- 
2.43.0


From cf48ab96be34ac54fe82b15bef833be1446db467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:30 +0000
Subject: [PATCH 11/41] fix: commas missing from fields.__all__

---
 pilo/fields.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index cc062d8..4f3f7fc 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -72,7 +72,7 @@ else:
 
 
 __all__ = [
-    'Field'
+    'Field',
     'String',
     'Integer',
     'Int',
@@ -80,8 +80,8 @@ __all__ = [
     'Decimal',
     'Boolean',
     'Bool',
-    'List'
-    'Dict'
+    'List',
+    'Dict',
     'SubForm',
     'Form',
 ]
-- 
2.43.0


From 09db97459f17c3398452dc1664107f969b298681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:30 +0000
Subject: [PATCH 12/41] fix: Field.from_context without the removed
 contextlib.nested

---
 pilo/fields.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 4f3f7fc..33a4e51 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -430,11 +430,11 @@ class Field(CreatedCountMixin, ContextMixin):
 
     def from_context(self):
 
+        @contextlib.contextmanager
         def resolve(self):
-            return contextlib.nested(
-                self.ctx(src=DefaultSource(self.ctx)),
-                self.ctx(src=self.src),
-            )
+            with self.ctx(src=DefaultSource(self.ctx)):
+                with self.ctx(src=self.src):
+                    yield
 
         self.resolve.attach(self)(resolve)
         return self
-- 
2.43.0


From 71b6086c641cc568881c324da42525e3949e67ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:30 +0000
Subject: [PATCH 13/41] fix: String choices may be any sequence

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 33a4e51..3af24f4 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -754,7 +754,7 @@ class String(Field):
                 value, self.pattern_re.pattern
             ))
             return False
-        if self.choices and value not in self.choices + list(self.translations.values()):
+        if self.choices and value not in list(self.choices) + list(self.translations.values()):
             if len(self.choices) == 1:
                 self.ctx.errors.invalid('"{0}" is not "{1}"'.format(
                     value, self.choices[0],
-- 
2.43.0


From fc12ae62ce4f10240fddbc959f86ab247bc2b0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:30 +0000
Subject: [PATCH 14/41] fix: Dict required_keys may be a list and need not be
 strings

---
 pilo/fields.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 3af24f4..16df156 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1179,10 +1179,10 @@ class Dict(Field):
             return False
         if value is not None:
             if self.required_keys:
-                missing_keys = self.required_keys.difference(value.keys())
+                missing_keys = set(self.required_keys).difference(value.keys())
                 if missing_keys:
                     self.ctx.errors.invalid('Missing required keys {0}'.format(
-                        ', '.join(missing_keys)
+                        ', '.join(str(key) for key in missing_keys)
                     ))
                     return False
             if self.max_keys and len(value) > self.max_keys:
-- 
2.43.0


From 832b0af36b27fc38899db68ef4ebfcd97b82656d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:30 +0000
Subject: [PATCH 15/41] fix: Form.has answers False for a field without a value
 instead of raising

---
 pilo/fields.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 16df156..81d8031 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1681,14 +1681,14 @@ class Form(six.with_metaclass(FormMeta, dict, CreatedCountMixin, ContextMixin)):
             name = field
             if name in self:
                 return True
-            field = getattr(self, name, None)
-            if field is None:
+            field = getattr(type(self), name, None)
+            if not isinstance(field, Field):
                 return False
         elif not isinstance(field, Field):
             raise TypeError('{0!r} is not string for Field'.format(field))
         try:
-            return field.__get__(self) is not None
-        except LookupError:
+            return field.__get__(self, type(self)) is not None
+        except (AttributeError, LookupError, FormError):
             return False
 
     def flatten(self):
-- 
2.43.0


From 65971120f63bdc8e0b94b475baacad340736dac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:30 +0000
Subject: [PATCH 16/41] fix: reading an unmappable sibling field raises
 AttributeError instead of returning a marker

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 81d8031..f040cf1 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -638,7 +638,7 @@ class Field(CreatedCountMixin, ContextMixin):
                     return getattr(frame, 'parent', None) is form
                 try:
                     with self.ctx.rewind(is_form):
-                        return self.map()
+                        value = self.map()
                 except self.ctx.RewindDidNotStop:
                     with self.ctx(form=form, parent=form, src=DefaultSource({})):
                         value = self.map()
-- 
2.43.0


From d21205976a85097fc8a319d2ebca7045d7eeeddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:30 +0000
Subject: [PATCH 17/41] fix: ConfigSource over configuration text

---
 pilo/source/configparser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pilo/source/configparser.py b/pilo/source/configparser.py
index 84a5538..2fb8d75 100644
--- a/pilo/source/configparser.py
+++ b/pilo/source/configparser.py
@@ -131,8 +131,8 @@ class ConfigSource(Source, ParserMixin):
         if isinstance(config, six.string_types):
             parser = six.moves.configparser.ConfigParser()
             if preserve_case:
-                config.optionxform = lambda x: x
-            parser.readfp(six.moves.StringIO.StringIO(config))
+                parser.optionxform = lambda x: x
+            getattr(parser, 'read_file', parser.readfp)(six.StringIO(config))
             config = parser
         self.config = config
         self.section = section
-- 
2.43.0


From 90640e9440532596e205b297c1d0c3d33b2d71b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:30 +0000
Subject: [PATCH 18/41] fix: iterating a configuration section

---
 pilo/source/configparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/source/configparser.py b/pilo/source/configparser.py
index 2fb8d75..1cc8c8a 100644
--- a/pilo/source/configparser.py
+++ b/pilo/source/configparser.py
@@ -78,7 +78,7 @@ class SectionMapping(collections.Mapping):
         raise KeyError(key)
 
     def __iter__(self):
-        for k, v in self.sub_mappings.iteritems():
+        for k, v in six.iteritems(self.sub_mappings):
             yield k
         for k, v in self.config.items(self.section):
             yield k
-- 
2.43.0


From 51133e7dfea2533c6efcefbd272e4ebab612c9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:30 +0000
Subject: [PATCH 19/41] fix: configuration sections without defaults

---
 pilo/source/configparser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pilo/source/configparser.py b/pilo/source/configparser.py
index 1cc8c8a..97e6d24 100644
--- a/pilo/source/configparser.py
+++ b/pilo/source/configparser.py
@@ -60,7 +60,7 @@ class SectionMapping(collections.Mapping):
         self.config = config
         self.section = section
         pattern = r'(?P<name>[\w\_]+)\[(?P<key>[\w\_\-\.]+)\]'
-        self.defaults = defaults
+        self.defaults = defaults or {}
         self.sub_mappings = collections.defaultdict(dict)
         for option, value in self.config.items(section):
             m = re.match(pattern, option)
@@ -96,7 +96,7 @@ class Mapping(collections.Mapping):
     def __getitem__(self, key):
         if not self.config.has_section(key):
             raise KeyError(key)
-        return SectionMapping(self.config, key, self.defaults.get(key, None))
+        return SectionMapping(self.config, key, (self.defaults or {}).get(key, None))
 
     def __iter__(self):
         for section in self.config.sections():
-- 
2.43.0


From 4c71e291a8fa976663b534ec6e7105a6de174812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:30 +0000
Subject: [PATCH 20/41] fix: constructing a MountPath

---
 pilo/source/mount.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/source/mount.py b/pilo/source/mount.py
index 251965d..0ccf5b7 100644
--- a/pilo/source/mount.py
+++ b/pilo/source/mount.py
@@ -10,7 +10,7 @@ class MountPath(collections.MutableSequence):
         self.part = None
         self.dne = DefaultSource({}).path()
         self.paths = dict(
-            (key, src.path()) for key, src in src.srcs.iteritems()
+            (key, src.path()) for key, src in six.iteritems(src.srcs)
         )
 
     @property
-- 
2.43.0


From 191bbb84724b60def8f662743cca5fe2f0e37351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:30 +0000
Subject: [PATCH 21/41] fix: MountPath reports SourceError at its root

---
 pilo/source/mount.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pilo/source/mount.py b/pilo/source/mount.py
index 0ccf5b7..8abd83d 100644
--- a/pilo/source/mount.py
+++ b/pilo/source/mount.py
@@ -1,7 +1,7 @@
 import collections
 import six
 
-from . import PathPart, Source, NONE, DefaultSource
+from . import PathPart, Source, SourceError, NONE, DefaultSource
 
 
 class MountPath(collections.MutableSequence):
@@ -60,12 +60,12 @@ class MountPath(collections.MutableSequence):
 
     def primitive(self, *types):
         if self.part is None:
-            raise self.error(self, 'not a primitive')
+            raise SourceError(self, 'not a primitive')
         return self.paths[self.part.key].primitive(*types)
 
     def sequence(self):
         if self.part is None:
-            raise self.error(self, 'not a sequence')
+            raise SourceError(self, 'not a sequence')
         return self.paths[self.part.key].sequence()
 
     def mapping(self):
-- 
2.43.0


From a8fc19519cde249d5b3a4cfd696df66506823b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:30 +0000
Subject: [PATCH 22/41] fix: paths under an unknown mount point do not exist

---
 pilo/source/mount.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pilo/source/mount.py b/pilo/source/mount.py
index 8abd83d..9eb5c50 100644
--- a/pilo/source/mount.py
+++ b/pilo/source/mount.py
@@ -8,7 +8,7 @@ class MountPath(collections.MutableSequence):
 
     def __init__(self, src):
         self.part = None
-        self.dne = DefaultSource({}).path()
+        self.dne = DefaultSource(NONE).path()
         self.paths = dict(
             (key, src.path()) for key, src in six.iteritems(src.srcs)
         )
@@ -61,12 +61,12 @@ class MountPath(collections.MutableSequence):
     def primitive(self, *types):
         if self.part is None:
             raise SourceError(self, 'not a primitive')
-        return self.paths[self.part.key].primitive(*types)
+        return self.path.primitive(*types)
 
     def sequence(self):
         if self.part is None:
             raise SourceError(self, 'not a sequence')
-        return self.paths[self.part.key].sequence()
+        return self.path.sequence()
 
     def mapping(self):
         if self.part is None:
-- 
2.43.0


From 5deb78f17dd9fde91d6a3f99fcc43e47269b5996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:30 +0000
Subject: [PATCH 23/41] fix: UnionSource must not modify the caller's list of
 sources

---
 pilo/source/union.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pilo/source/union.py b/pilo/source/union.py
index 8bba843..55d02e2 100644
--- a/pilo/source/union.py
+++ b/pilo/source/union.py
@@ -75,6 +75,7 @@ class UnionSource(Source):
         merge_depth=None,
     ):
         super(UnionSource, self).__init__()
+        srcs = list(srcs)
         for i, src in enumerate(srcs):
             if isinstance(src, Source):
                 continue
-- 
2.43.0


From 2c1b9ffa2261974bc3bceb0b38cd4735d08fcf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:30 +0000
Subject: [PATCH 24/41] fix: message of an invalid sequence merge

---
 pilo/source/union.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/source/union.py b/pilo/source/union.py
index 55d02e2..00c3bea 100644
--- a/pilo/source/union.py
+++ b/pilo/source/union.py
@@ -215,7 +215,7 @@ class Sequence(collections.Sequence):
             elif merge == 'last':
                 sequences[0] = (path, length)
             else:
-                raise ValueError('merge="{1}" invalid'.format(merge))
+                raise ValueError('merge="{0}" invalid'.format(merge))
         self.src = src
         self.sequences = sequences
 
-- 
2.43.0


From d8521c3db468d5b15e5e08a18c6f03837925ef63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:26 +0000
Subject: [PATCH 25/41] fix: Context.values_for of a name that is also a dict
 method

---
 pilo/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/context.py b/pilo/context.py
index 6a384bb..99a74ad 100644
--- a/pilo/context.py
+++ b/pilo/context.py
@@ -112,7 +112,7 @@ class Context(threading.local):
         """
         Each value with name `k`.
         """
-        return [getattr(frame, k) for frame in self.stack if hasattr(frame, k)]
+        return [frame[k] for frame in self.stack if k in frame]
 
     def reset(self):
         """
-- 
2.43.0


From 9dda626afa425886d68126183beca2a1990bffd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:57 +0000
Subject: [PATCH 26/41] fix: aliases and ignores apply to the part being
 resolved, not to the current path

---
 pilo/source/default.py | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/pilo/source/default.py b/pilo/source/default.py
index 4620093..b2b30da 100644
--- a/pilo/source/default.py
+++ b/pilo/source/default.py
@@ -1,5 +1,4 @@
 import collections
-import copy
 import six
 
 from . import Source, Path, ParserMixin, NONE
@@ -7,15 +6,14 @@ from . import Source, Path, ParserMixin, NONE
 
 class DefaultPath(Path):
 
-    def _resolve(self, container, atom):
-        if self.src.ignore(self):
-            return NONE
+    def _resolve(self, container, atom, first=False):
         value = self._as_item(container, atom)
         if value is not NONE:
             return value
-        value = self._as_alias(container, atom)
-        if value is not NONE:
-            return value
+        if first:
+            value = self._as_alias(container, atom)
+            if value is not NONE:
+                return value
         return self._as_attr(container, atom)
 
     def _as_item(self, container, atom):
@@ -25,7 +23,7 @@ class DefaultPath(Path):
             return NONE
 
     def _as_alias(self, container, atom):
-        if self.src.aliases and atom in self.src.aliases and len(self) == 1:
+        if self.src.aliases and atom in self.src.aliases:
             alias = self.src.aliases[atom]
             return self._as_item(container, alias)
         return NONE
@@ -51,24 +49,30 @@ class DefaultPath(Path):
         return ':'.join(parts)
 
     def resolve(self, container, part):
-        if isinstance(part.key, six.string_types) and part.key.endswith('()'):
-            part = copy.copy(part)
-            part.key = part.key[:-2]
-            value = self.resolve(container, part)
+        # this part need not be the last one of the current path
+        depth = self.parts.index(part) + 1
+        if self.src.ignore(self.parts[:depth]):
+            return NONE
+        return self._resolve_key(container, part.key, depth == 1)
+
+    def _resolve_key(self, container, key, first):
+        if isinstance(key, six.string_types) and key.endswith('()'):
+            value = self._resolve_key(container, key[:-2], first)
             if value is NONE:
                 return NONE
             return value()
 
-        if isinstance(part.key, six.string_types):
-            value = self._resolve(container, part.key)
+        if isinstance(key, six.string_types):
+            value = self._resolve(container, key, first)
             if value is NONE:
                 value = container
-                for atom in part.key.split('.'):
-                    value = self._resolve(value, atom)
+                for atom in key.split('.'):
+                    value = self._resolve(value, atom, first)
                     if value is NONE:
                         break
+                    first = False
         else:
-            value = self._resolve(container, part.key)
+            value = self._resolve(container, key, first)
         return value
 
 
-- 
2.43.0


From dee423b3a8db19783908ee46b5a4dce798cd7b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:39 +0000
Subject: [PATCH 27/41] fix: an index into a configuration section is not there
 instead of an error

---
 pilo/source/configparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/source/configparser.py b/pilo/source/configparser.py
index 97e6d24..ed39d0a 100644
--- a/pilo/source/configparser.py
+++ b/pilo/source/configparser.py
@@ -71,7 +71,7 @@ class SectionMapping(collections.Mapping):
     def __getitem__(self, key):
         if key in self.sub_mappings:
             return self.sub_mappings[key]
-        if self.config.has_option(self.section, key):
+        if isinstance(key, six.string_types) and self.config.has_option(self.section, key):
             return self.config.get(self.section, key)
         if key in self.defaults:
             return self.defaults[key]
-- 
2.43.0


From a44b002ac7771413a9a0ca7905d0a2e38ff63e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:52 +0000
Subject: [PATCH 28/41] fix: a bare field of a Group is mapped at its key, not
 below it

---
 pilo/fields.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index f040cf1..a7f3f75 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1395,7 +1395,10 @@ class Group(Field):
                 raise ValueError(
                     'field{0}.src is not set'.format(_path(*path))
                 )
-            self.fields.append((obj.src, obj))
+            # the matching key is already part of the path when mapping it
+            field = obj.clone()
+            field.src = None
+            self.fields.append((obj.src, field))
 
         def _add_tuple(obj, *path):
             if len(obj) != 2:
-- 
2.43.0


From 892ea0ca4ebe4688768992a422153e95934dac4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:39 +0000
Subject: [PATCH 29/41] fix: a polymorphic value without an identity is Invalid
 instead of an AttributeError

---
 pilo/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pilo/__init__.py b/pilo/__init__.py
index 1dddad3..43cb944 100644
--- a/pilo/__init__.py
+++ b/pilo/__init__.py
@@ -95,7 +95,9 @@ class Types(dict):
         probe = self.type_form()
         errors = probe.map(src)
         if not errors:
-            return self.type_field.__get__(probe)
+            if self.type_field.name in probe:
+                return self.type_field.__get__(probe)
+            errors = [ValueError('{0} has no value'.format(self.type_field))]
         if default in IGNORE:
             raise errors[0]
         return default
-- 
2.43.0


From dcaf4fd3e1001311c1b7962497472ae4c055e35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:53 +0000
Subject: [PATCH 30/41] fix: a number with no exact decimal is invalid for a
 Decimal field, not a TypeError

---
 pilo/fields.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index a7f3f75..ac4df50 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -855,7 +855,10 @@ class Decimal(Number):
         if isinstance(path.value, decimal.Decimal):
             return path.value
         if isinstance(path.value, numbers.Number):
-            return decimal.Decimal(path.value)
+            try:
+                return decimal.Decimal(path.value)
+            except TypeError:
+                raise ValueError('"{0}" is not a decimal'.format(path.value))
         value = path.primitive(six.string_types[0])
         try:
             return decimal.Decimal(value)
-- 
2.43.0


From 90b416468efce68c28e7a8eb64f258bcd0068042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:20 +0000
Subject: [PATCH 31/41] fix: a hook of a field already on a form gives back the
 field, not the form class

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index ac4df50..ebd7d87 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -219,7 +219,7 @@ class Hook(object):
                 ))
             self.func = func
             parent = self.parent
-            while isinstance(parent, Field) and parent.parent:
+            while isinstance(parent, Field) and isinstance(parent.parent, Field):
                 parent = parent.parent
             return parent
 
-- 
2.43.0


From 0cea2cdc1766d0a5eb5066d1788ff4c167834f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:23 +0000
Subject: [PATCH 32/41] fix: map unmapped keys with their form current, so that
 a capture field's hooks get it

---
 pilo/fields.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index ebd7d87..5fe2386 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1613,9 +1613,9 @@ class Form(six.with_metaclass(FormMeta, dict, CreatedCountMixin, ContextMixin)):
                 value = field.map()
                 if value not in IGNORE:
                     self[field.name] = value
-        unmapped = self._unmapped(unmapped)
-        if unmapped is not None:
-            self.update(unmapped)
+            unmapped = self._unmapped(unmapped)
+            if unmapped is not None:
+                self.update(unmapped)
 
     def _unmapped(self, directive):
         if not directive:
-- 
2.43.0


From 5a83a1d1a5c4ba06f89e2c57dda8caa67dcf9ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:11 +0000
Subject: [PATCH 33/41] fix: An element of a union is read from the right index
 of a nested union

The index within the sequence it falls in was only set on the last part of
that source's own path, so a union that is itself a source of a union still
read its sources at the index of the whole.
---
 pilo/source/union.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/source/union.py b/pilo/source/union.py
index 00c3bea..bbef4e4 100644
--- a/pilo/source/union.py
+++ b/pilo/source/union.py
@@ -229,7 +229,7 @@ class Sequence(collections.Sequence):
             offset += length
         else:
             raise IndexError(key)
-        path[-1].key -= offset
+        path[-1] = path[-1].key - offset
         return Join(self.src, [path])
 
     def __len__(self):
-- 
2.43.0


From 9134d82f3495ca08a09a17c8c480bd03cea9c2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:52 +0000
Subject: [PATCH 34/41] fix: rejecting a value for its only choice works
 however the choices are given

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 5fe2386..62551f3 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -757,7 +757,7 @@ class String(Field):
         if self.choices and value not in list(self.choices) + list(self.translations.values()):
             if len(self.choices) == 1:
                 self.ctx.errors.invalid('"{0}" is not "{1}"'.format(
-                    value, self.choices[0],
+                    value, list(self.choices)[0],
                 ))
             else:
                 self.ctx.errors.invalid('"{0}" is not one of {1}'.format(
-- 
2.43.0


From 6921ebcd6befe365dc523d26d4ea95361d5923d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:13 +0000
Subject: [PATCH 35/41] fix: from_context() registers a resolve hook its own
 check accepts

---
 pilo/fields.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 62551f3..87dbec6 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -431,11 +431,14 @@ class Field(CreatedCountMixin, ContextMixin):
     def from_context(self):
 
         @contextlib.contextmanager
-        def resolve(self):
+        def scope(self):
             with self.ctx(src=DefaultSource(self.ctx)):
                 with self.ctx(src=self.src):
                     yield
 
+        def resolve(self):
+            return scope(self)
+
         self.resolve.attach(self)(resolve)
         return self
 
-- 
2.43.0


From d19b93328f5da2ea668dc198870324d38a3fa44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:13 +0000
Subject: [PATCH 36/41] fix: capturing from a null value leaves it null instead
 of raising

---
 pilo/fields.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pilo/fields.py b/pilo/fields.py
index 87dbec6..0f13755 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -715,6 +715,8 @@ class String(Field):
             pattern = re.compile(pattern)
 
         def munge(self, value):
+            if value is None:
+                return value
             match = pattern.match(value)
             if not match:
                 return NONE
-- 
2.43.0


From 75df8e4c158487e95ba22c833a460d6ff96c16ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:33 +0000
Subject: [PATCH 37/41] fix: code in a module of a package is loaded from that
 module

---
 pilo/fields.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 0f13755..51a96bb 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1218,7 +1218,8 @@ class Code(Field):
 
     @classmethod
     def load(cls, name, attr):
-        module = __import__(name)
+        __import__(name)
+        module = sys.modules[name]
         try:
             obj = six.moves.reduce(getattr, attr.split('.'), module)
         except AttributeError:
-- 
2.43.0


From f460b35493d8d23dfa1356a8c5617c048862b18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:00 +0000
Subject: [PATCH 38/41] fix: a null value of a field with attach_parent is left
 alone

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 51a96bb..d5a7fe6 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -612,7 +612,7 @@ class Field(CreatedCountMixin, ContextMixin):
         """
         with self.ctx(field=self, parent=self):
             value = self._map(value)
-        if self.attach_parent and value not in IGNORE:
+        if self.attach_parent and value is not None and value not in IGNORE:
             if hasattr(self.ctx, 'parent'):
                 value.parent = weakref.proxy(self.ctx.parent)
             else:
-- 
2.43.0


From ae09803ca4738e404c99c58b2ed4a501ec8ee534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:20 +0000
Subject: [PATCH 39/41] fix: values that are not hashable have no translation
 instead of raising

---
 pilo/fields.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index d5a7fe6..c566a69 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -525,8 +525,12 @@ class Field(CreatedCountMixin, ContextMixin):
         """
         Possibly munges a value.
         """
-        if self.translations and value in self.translations:
-            value = self.translations[value]
+        try:
+            if self.translations and value in self.translations:
+                value = self.translations[value]
+        except TypeError:
+            # not hashable, so there's no translation of it
+            pass
         return value
 
     def _default(self):
-- 
2.43.0


From e6d142f2b6852cf65e8e41fefdba0e17d1cf4d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:35 +0000
Subject: [PATCH 40/41] fix: ask a union for one type after another

---
 pilo/source/union.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pilo/source/union.py b/pilo/source/union.py
index bbef4e4..069b122 100644
--- a/pilo/source/union.py
+++ b/pilo/source/union.py
@@ -113,7 +113,8 @@ class UnionSource(Source):
 
     def primitive(self, path, *types):
         if isinstance(path.value, Join):
-            path.value = path.value.primitive(*types)
+            # the path keeps its value, another type may be asked for next
+            return path.value.primitive(*types)
         return path.value
 
 
-- 
2.43.0


From b6ade5d8956a00cefc2531d68c87274ac34632a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:08 +0000
Subject: [PATCH 41/41] fix: typed values read through a union

---
 pilo/fields.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index c566a69..2eb1b9a 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -861,13 +861,14 @@ class Float(Number):
 class Decimal(Number):
 
     def _parse(self, path):
-        if isinstance(path.value, decimal.Decimal):
-            return path.value
-        if isinstance(path.value, numbers.Number):
+        value = path.primitive()
+        if isinstance(value, decimal.Decimal):
+            return value
+        if isinstance(value, numbers.Number):
             try:
-                return decimal.Decimal(path.value)
+                return decimal.Decimal(value)
             except TypeError:
-                raise ValueError('"{0}" is not a decimal'.format(path.value))
+                raise ValueError('"{0}" is not a decimal'.format(value))
         value = path.primitive(six.string_types[0])
         try:
             return decimal.Decimal(value)
@@ -917,8 +918,9 @@ class Date(Field, RangeMixin):
         return self
 
     def _parse(self, path):
-        if isinstance(path.value, datetime.date):
-            return path.value
+        value = path.primitive()
+        if isinstance(value, datetime.date):
+            return value
         value = path.primitive(six.string_types[0])
         if not self._format:
             self.ctx.errors.invalid('Unknown format for value "{0}"'.format(value))
@@ -973,7 +975,7 @@ class Time(Field, RangeMixin):
         return self
 
     def _parse(self, path):
-        value = path.value
+        value = path.primitive()
         if isinstance(value, (time.struct_time, datetime.time)):
             return value
         value = path.primitive(six.string_types[0])
@@ -1012,8 +1014,9 @@ class Datetime(Field, RangeMixin):
         return self
 
     def _parse(self, path):
-        if isinstance(path.value, datetime.datetime):
-            return path.value
+        value = path.primitive()
+        if isinstance(value, datetime.datetime):
+            return value
         value = path.primitive(six.string_types[0])
         if self._format == 'iso8601':
             try:
-- 
2.43.0

