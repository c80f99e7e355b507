From 702918efe4e30298a256b587c74eeba686b39108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:57 +0000
Subject: [PATCH 01/49] fix: write an empty cell for a missing value if the
 column has no null marker

---
 src/csvw/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 4d485e2..0dd5e11 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -842,7 +842,7 @@ class Column(Description):
 
         def fmt(v):
             if v is None:
-                return null[0]
+                return null[0] if null else ''
             if datatype:
                 return datatype.formatted(v)
             return v
-- 
2.43.0


From 7cf6735b2e3c6cb16ff8ed00bac27cbd3c112292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:58 +0000
Subject: [PATCH 02/49] fix: let columns inherit default and lang from the
 containing descriptions

---
 src/csvw/metadata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 0dd5e11..7fdaad9 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -735,7 +735,8 @@ class Description(DescriptionBase):
 
     def inherit(self, attr):
         v = getattr(self, attr)
-        if v is None and self._parent:
+        # Unspecified inherited properties are None - except for `default` and `lang`.
+        if (v is None or (attr, v) in [('default', ''), ('lang', 'und')]) and self._parent:
             return self._parent.inherit(attr) if hasattr(self._parent, 'inherit') \
                 else getattr(self._parent, attr)
         return v
-- 
2.43.0


From c89c57db5bd04b9532456690712dba711732abb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:09 +0000
Subject: [PATCH 03/49] fix: reject contradictory datatype facets, including
 falsy ones

---
 src/csvw/metadata.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 7fdaad9..ffddf61 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -579,8 +579,8 @@ class Datatype(DescriptionBase):
         if not isinstance(
                 self.basetype(),
                 tuple((DATATYPES[name] for name in ['decimal', 'float', 'datetime', 'duration']))):
-            if any([getattr(self, at) for at in
-                    'minimum maximum minExclusive maxExclusive minInclusive maxInclusive'.split()]):
+            if any(getattr(self, at) is not None for at in
+                   'minimum maximum minExclusive maxExclusive minInclusive maxInclusive'.split()):
                 raise ValueError(
                     'Applications MUST raise an error if minimum, minInclusive, maximum, '
                     'maxInclusive, minExclusive, or maxExclusive are specified and the base '
@@ -589,24 +589,30 @@ class Datatype(DescriptionBase):
         if not isinstance(
                 self.basetype(),
                 (DATATYPES['string'], DATATYPES['base64Binary'], DATATYPES['hexBinary'])):
-            if self.length or self.minLength or self.maxLength:
+            if any(getattr(self, at) is not None for at in ['length', 'minLength', 'maxLength']):
                 raise ValueError(
                     'Applications MUST raise an error if length, maxLength, or minLength are '
                     'specified and the base datatype is not string or one of its subtypes, or a '
                     'binary type.')
 
-        if (self.minInclusive and self.minExclusive) or (self.maxInclusive and self.maxExclusive):
+        if (self.minInclusive is not None and self.minExclusive is not None) or \
+                (self.maxInclusive is not None and self.maxExclusive is not None):
             raise ValueError(
                 'Applications MUST raise an error if both minInclusive and minExclusive are '
                 'specified, or if both maxInclusive and maxExclusive are specified.')
 
-        if (self.minInclusive and self.maxExclusive and self.maxExclusive <= self.minInclusive) or \
-                (self.minInclusive and self.maxInclusive and self.maxInclusive < self.minInclusive):
-            raise ValueError('')
-
-        if (self.minExclusive and self.maxExclusive and self.maxExclusive <= self.minExclusive) or (
-                self.minExclusive and self.maxInclusive and self.maxInclusive <= self.minExclusive):
-            raise ValueError('')
+        for lower, upper in itertools.product(
+                ['minimum', 'minInclusive', 'minExclusive'],
+                ['maximum', 'maxInclusive', 'maxExclusive']):
+            min_, max_ = getattr(self, lower), getattr(self, upper)
+            if min_ is None or max_ is None:
+                continue
+            try:
+                empty = max_ < min_ or (max_ == min_ and 'Exclusive' in lower + upper)
+            except TypeError:  # There's no order, e.g. between months and days.
+                continue
+            if empty:
+                raise ValueError('{} and {} exclude all values'.format(lower, upper))
 
         if 'id' in self.at_props and any(
                 self.at_props['id'] == NAMESPACES['xsd'] + dt for dt in DATATYPES):
-- 
2.43.0


From 964e118c1752d152187ebcc5e815e516e1f319e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:48 +0000
Subject: [PATCH 04/49] fix: report cells out of range for parser or comparison
 as invalid values

---
 src/csvw/metadata.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index ffddf61..0bb6ce4 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -680,7 +680,11 @@ class Datatype(DescriptionBase):
         return v
 
     def read(self, v):
-        return self.validate(self.parse(v))
+        try:
+            return self.validate(self.parse(v))
+        except (ArithmeticError, TypeError, RecursionError) as e:
+            # Values which are out of range for the parser or cannot be compared with the bounds.
+            raise ValueError('invalid value for {}: {}'.format(self.base, e)) from e
 
 
 def converter_null(v):
-- 
2.43.0


From 05bb8888b71d1c16d21bb051a3de644258058d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:03 +0000
Subject: [PATCH 05/49] fix: check the format of normalizedString datatypes

---
 src/csvw/datatypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index ad17973..fb7d647 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -886,7 +886,7 @@ class normalizedString(string):
             for c in '\r\n\t':
                 v = v.replace(c, ' ')
             v = v.strip()
-        return string.to_python(v, '')
+        return string.to_python(v, regex=regex)
 
 
 @register
-- 
2.43.0


From 2d56e27c3da4aaa5b5717559280f171d76def014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:05 +0000
Subject: [PATCH 06/49] fix: do not ignore a trailing newline when matching a
 string format

---
 src/csvw/datatypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index fb7d647..2269e94 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -95,10 +95,10 @@ class string(anyAtomicType):
     @staticmethod
     def derived_description(datatype: "csvw.Datatype") -> dict:
         if datatype.format:
-            # We wrap a regex specified as `format` property into a group and add `$` to
+            # We wrap a regex specified as `format` property into a group and add `\Z` to
             # make sure the whole string is matched when validating.
             try:
-                return {'regex': re.compile(r'({})$'.format(datatype.format))}
+                return {'regex': re.compile(r'({})\Z'.format(datatype.format))}
             except re.error:
                 warnings.warn('Invalid regex pattern as datatype format')
         return {}
-- 
2.43.0


From c88e5fd3a395f3e983fbb1a36844af552a6bb26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:07 +0000
Subject: [PATCH 07/49] fix: ignore invalid formats of duration datatypes, with
 a warning

---
 src/csvw/datatypes.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 2269e94..6372c57 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -447,7 +447,12 @@ class duration(anyAtomicType):
 
     @staticmethod
     def derived_description(datatype: "csvw.Datatype") -> dict:
-        return {'format': datatype.format}
+        if datatype.format:
+            try:
+                return {'format': re.compile(datatype.format)}
+            except (re.error, TypeError):
+                warnings.warn('Invalid regex pattern as datatype format')
+        return {}
 
     @staticmethod
     def to_python(v, format=None, **kw):
-- 
2.43.0


From 012f53691e6b660604648628feb1a0b69b9e72fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:34 +0000
Subject: [PATCH 08/49] fix: report invalid number patterns with ValueError

---
 src/csvw/datatypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 6372c57..396515e 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -1175,7 +1175,8 @@ class NumberPattern:
     """
 
     def __init__(self, pattern):
-        assert pattern.count(';') <= 1
+        if pattern.count(';') > 1:
+            raise ValueError('Invalid number pattern: {}'.format(pattern))
         self.positive, _, self.negative = pattern.partition(';')
         if not self.negative:
             self.negative = '-' + self.positive.replace('+', '')
-- 
2.43.0


From d2205059fba4993ce35d56db72e481f8a9fa0f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:27 +0000
Subject: [PATCH 09/49] fix: do not confuse decimal and group characters of
 number formats

---
 src/csvw/datatypes.py | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 396515e..15d7472 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -46,6 +46,14 @@ def to_binary(s, encoding='utf-8'):
     return s  # pragma: no cover
 
 
+def replace_all(s, replacements):
+    """
+    Replace all keys of `replacements` found in `s` in one go, i.e. replacements aren't replaced.
+    """
+    return re.sub(
+        '|'.join(re.escape(k) for k in replacements), lambda m: replacements[m.group()], s)
+
+
 @register
 class anyAtomicType:
     """
@@ -544,8 +552,9 @@ class decimal(anyAtomicType):
             groupChar = ','
         if decimalChar is None and pattern and '.' in pattern:
             decimalChar = '.'
-        if pattern and not NumberPattern(pattern).is_valid(
-                v.replace(groupChar or ',', ',').replace(decimalChar or '.', '.')):
+        chars = {'.': '.', ',': ','}
+        chars.update((c, p) for c, p in [(decimalChar, '.'), (groupChar, ',')] if c)
+        if pattern and not NumberPattern(pattern).is_valid(replace_all(v, chars)):
             raise ValueError(
                 'Invalid value "{}" for decimal with pattern "{}"'.format(v, pattern))
 
@@ -576,11 +585,7 @@ class decimal(anyAtomicType):
 
         if pattern:
             v = babel.numbers.format_decimal(v, pattern, 'en')
-            if decimalChar:
-                v = v.replace('.', decimalChar)
-            if groupChar:
-                v = v.replace(',', groupChar)
-            return v
+            return replace_all(v, {'.': decimalChar or '.', ',': groupChar or ','})
 
         fmt = '{}' if groupChar is None else '{:,}'
         try:
@@ -597,15 +602,7 @@ class decimal(anyAtomicType):
             return '{}{}{}.0'.format(sign, digits, zero_padding) if exp > 0 else (
                 '{}0.{}{}'.format(sign, zero_padding, digits))
 
-        if groupChar or decimalChar:
-            def repl(m):
-                if m.group('c') == ',':
-                    return groupChar
-                if m.group('c') == '.':
-                    return decimalChar
-            r = '(?P<c>[{}])'.format(re.escape((decimalChar or '') + (groupChar or '')))
-            v = re.sub(r, repl, v)
-        return v
+        return replace_all(v, {'.': decimalChar or '.', ',': groupChar or ','})
 
 
 @register
-- 
2.43.0


From 03d0d24735d0ef9acb5086a7447e621835f0f26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:46 +0000
Subject: [PATCH 10/49] fix: write decimals in scientific notation as the
 numbers they are

---
 src/csvw/datatypes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 15d7472..8db3b37 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -593,7 +593,9 @@ class decimal(anyAtomicType):
         except TypeError:
             neg = None
         v = fmt.format(v)
-        if 'e' in v.lower():  # detect scientific notation
+        if 'e' in v.lower() and neg is not None:  # a number in scientific notation
+            v = ('{:f}' if groupChar is None else '{:,f}').format(_decimal.Decimal(v))
+        elif 'e' in v.lower():  # detect scientific notation
             digits, exp = v.lower().split('e')
             digits = digits.replace('.', '').replace('-', '')
             exp = int(exp)
-- 
2.43.0


From c82ba0e01a4c12d7dce86ac9e23e4fe42f26e279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:50 +0000
Subject: [PATCH 11/49] fix: check primary keys with list-valued columns

---
 src/csvw/metadata.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 0bb6ce4..9863604 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1295,17 +1295,21 @@ class Table(TableLike):
                           'is deprecated (its content will be ignored)')  # pragma: no cover
         if self.tableSchema.primaryKey:
             get_pk = operator.itemgetter(*self.tableSchema.primaryKey)
+
+            def hashable(v):  # Values of columns with separator are lists.
+                return tuple(hashable(vv) for vv in v) if isinstance(v, (list, tuple)) else v
+
             seen = set()
             # Read all rows in the table, ignoring errors:
             for fname, lineno, row in self.iterdicts(log=nolog(), with_metadata=True):
                 pk = get_pk(row)
-                if pk in seen:
+                if hashable(pk) in seen:
                     log_or_raise(
                         '{0}:{1} duplicate primary key: {2}'.format(fname, lineno, pk),
                         log=log)
                     success = False
                 else:
-                    seen.add(pk)
+                    seen.add(hashable(pk))
         return success
 
     def __iter__(self):
-- 
2.43.0


From 1ebc66eca56a5980d430d8d5ef2dc5155d146376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:21 +0000
Subject: [PATCH 12/49] fix: report inconsistent foreign keys to the logger, if
 there is one

---
 src/csvw/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 9863604..95e304a 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1600,8 +1600,8 @@ class TableGroup(TableLike):
             self.validate_schema()
             success = True
         except ValueError as e:
-            success = False
             log_or_raise(str(e), log=log, level='error')
+            return False  # The columns of the keys may not even exist.
         fkeys = self.foreign_keys()
         # FIXME: We only support Foreign Key references between tables!
         fkeys = sorted(fkeys, key=lambda x: (x[0].local_name, x[1], x[2].local_name))
-- 
2.43.0


From 4e98fa69a3cbb0388ff71de9b7bfe62b60a413ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:03 +0000
Subject: [PATCH 13/49] fix: do not double escape characters Python's csv
 writer escapes itself

---
 src/csvw/dsv.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/csvw/dsv.py b/src/csvw/dsv.py
index 0d050d2..78cfdac 100644
--- a/src/csvw/dsv.py
+++ b/src/csvw/dsv.py
@@ -13,6 +13,7 @@ The original implementations were largely copied from
 """
 import io
 import csv
+import sys
 import codecs
 import shutil
 import typing
@@ -75,7 +76,8 @@ class UnicodeWriter:
                 self.kw['dialect'] = dialect
         self.encoding = normalize_encoding(self.encoding)
         self.escapechar = self.kw.get('escapechar')
-        if self.escapechar and self.kw.get('quoting') != csv.QUOTE_NONE:
+        if sys.version_info < (3, 10) and \
+                self.escapechar and self.kw.get('quoting') != csv.QUOTE_NONE:
             # work around https://bugs.python.org/issue12178
             # (csv.writer doesn't escape escapechar while csv.reader expects it)
             def _escapedoubled(row,
-- 
2.43.0


From 36cb1b4cfabde77d869084dff167ac90d3df12ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:16 +0000
Subject: [PATCH 14/49] fix: skip a byte order mark however the encoding UTF-8
 is spelled in a dialect

---
 src/csvw/dsv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/dsv.py b/src/csvw/dsv.py
index 78cfdac..ba65372 100644
--- a/src/csvw/dsv.py
+++ b/src/csvw/dsv.py
@@ -174,7 +174,7 @@ class UnicodeReader:
         self.newline = kw.pop('lineterminator', None)
         self.dialect = dialect if isinstance(dialect, Dialect) else None
         if self.dialect:
-            self.encoding = self.dialect.python_encoding
+            self.encoding = normalize_encoding(self.dialect.python_encoding)
             self.kw = dialect.as_python_formatting_parameters()
             self.kw.update(kw)
         else:
-- 
2.43.0


From 299c4f16fdb00bdeb963a1fcf662a9f7f4bc10b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:26 +0000
Subject: [PATCH 15/49] fix: decode zipped and remote data like local files,
 and close it

---
 src/csvw/metadata.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 95e304a..9659093 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -30,7 +30,8 @@ import uritemplate
 
 from . import utils
 from .datatypes import DATATYPES
-from .dsv import Dialect as BaseDialect, UnicodeReaderWithLineNumber, UnicodeWriter
+from .dsv import (
+    Dialect as BaseDialect, UnicodeReaderWithLineNumber, UnicodeWriter, normalize_encoding)
 from .frictionless import DataPackage
 from . import jsonld
 
@@ -1356,9 +1357,16 @@ class Table(TableLike):
                 requiredcols.add(col.header)
 
         with contextlib.ExitStack() as stack:
+            # Remote or zipped data is decoded just as UnicodeReader does for local files.
+            encoding = normalize_encoding(dialect.python_encoding)
+            if encoding == 'utf-8':
+                encoding = 'utf-8-sig'
+
             if is_url(fname):
-                handle = io.TextIOWrapper(
-                    io.BytesIO(requests.get(str(fname)).content), encoding=dialect.encoding)
+                handle = stack.enter_context(io.TextIOWrapper(
+                    io.BytesIO(requests.get(str(fname)).content),
+                    encoding=encoding,
+                    newline=''))
             else:
                 handle = fname
                 fpath = pathlib.Path(fname)
@@ -1366,9 +1374,10 @@ class Table(TableLike):
                     zipfname = fpath.parent.joinpath(fpath.name + '.zip')
                     if zipfname.exists():
                         zipf = stack.enter_context(zipfile.ZipFile(str(zipfname)))
-                        handle = io.TextIOWrapper(
+                        handle = stack.enter_context(io.TextIOWrapper(
                             zipf.open([n for n in zipf.namelist() if n.endswith(fpath.name)][0]),
-                            encoding=dialect.encoding)
+                            encoding=encoding,
+                            newline=''))
 
             reader = stack.enter_context(UnicodeReaderWithLineNumber(handle, dialect=dialect))
             reader = iter(reader)
-- 
2.43.0


From ffa0cd032f15854d8ba161564b1eca1a55781a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:28 +0000
Subject: [PATCH 16/49] fix: read the right member of a zip archive

---
 src/csvw/metadata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 9659093..6dd9c03 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1375,7 +1375,8 @@ class Table(TableLike):
                     if zipfname.exists():
                         zipf = stack.enter_context(zipfile.ZipFile(str(zipfname)))
                         handle = stack.enter_context(io.TextIOWrapper(
-                            zipf.open([n for n in zipf.namelist() if n.endswith(fpath.name)][0]),
+                            zipf.open([
+                                n for n in zipf.namelist() if n.split('/')[-1] == fpath.name][0]),
                             encoding=encoding,
                             newline=''))
 
-- 
2.43.0


From 8d1e7bb49e30049172f5d76827c234f585adb7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:39 +0000
Subject: [PATCH 17/49] fix: read table data from file-like objects, as
 documented

---
 src/csvw/metadata.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 6dd9c03..849acee 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1369,8 +1369,9 @@ class Table(TableLike):
                     newline=''))
             else:
                 handle = fname
-                fpath = pathlib.Path(fname)
-                if not fpath.exists():
+                # Note: `fname` may be a file-like object.
+                fpath = None if hasattr(fname, 'read') else pathlib.Path(fname)
+                if fpath and not fpath.exists():
                     zipfname = fpath.parent.joinpath(fpath.name + '.zip')
                     if zipfname.exists():
                         zipf = stack.enter_context(zipfile.ZipFile(str(zipfname)))
-- 
2.43.0


From 524e9d7cbaf118600b2297beee79d1289d6c641c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:12 +0000
Subject: [PATCH 18/49] fix: quote all names and bind the context in SQL
 statements

---
 src/csvw/db.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index 8a03c62..a9b0013 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -80,7 +80,7 @@ class ColumnTranslator(typing.Protocol):
 
 
 def quoted(*names):
-    return ','.join('`{0}`'.format(name) for name in names)
+    return ','.join('`{0}`'.format(name.replace('`', '``')) for name in names)
 
 
 def insert(db: sqlite3.Connection,
@@ -156,7 +156,7 @@ class ColSpec:
         """
         if not self.csvw:
             return
-        c, cname = self.csvw, translate(self.name)
+        c, cname = self.csvw, quoted(translate(self.name))
         constraints = []
         if (c.minimum is not None) or (c.maximum is not None):
             func = {
@@ -165,27 +165,27 @@ class ColSpec:
             }.get(self.csvw_type)
             if c.minimum is not None:
                 if func:
-                    constraints.append("{2}(`{0}`) >= {2}('{1}')".format(cname, c.minimum, func))
+                    constraints.append("{2}({0}) >= {2}('{1}')".format(cname, c.minimum, func))
                 else:
-                    constraints.append('`{0}` >= {1}'.format(cname, c.minimum))
+                    constraints.append('{0} >= {1}'.format(cname, c.minimum))
             if c.maximum is not None:
                 if func:
-                    constraints.append("{2}(`{0}`) <= {2}('{1}')".format(cname, c.maximum, func))
+                    constraints.append("{2}({0}) <= {2}('{1}')".format(cname, c.maximum, func))
                 else:
-                    constraints.append('`{0}` <= {1}'.format(cname, c.maximum))
+                    constraints.append('{0} <= {1}'.format(cname, c.maximum))
         elif any(cc is not None for cc in [c.length, c.minLength, c.maxLength]):
             if c.length:
-                constraints.append('length(`{0}`) = {1}'.format(cname, c.length))
+                constraints.append('length({0}) = {1}'.format(cname, c.length))
             if c.minLength:
-                constraints.append('length(`{0}`) >= {1}'.format(cname, c.minLength))
+                constraints.append('length({0}) >= {1}'.format(cname, c.minLength))
             if c.maxLength:
-                constraints.append('length(`{0}`) <= {1}'.format(cname, c.maxLength))
+                constraints.append('length({0}) <= {1}'.format(cname, c.maxLength))
         return ' AND '.join(constraints)
 
     def sql(self, translate: ColumnTranslator) -> str:
         _check = self.check(translate)
-        return '`{0}` {1}{2}{3}'.format(
-            translate(self.name),
+        return '{0} {1}{2}{3}'.format(
+            quoted(translate(self.name)),
             self.db_type,
             ' NOT NULL' if self.required else '',
             ' CHECK ({0})'.format(_check) if _check else '')
@@ -300,8 +300,8 @@ class TableSpec(object):
                 quoted(*[col_translate(c) for c in fk]),
                 quoted(translate(ref)),
                 quoted(*[translate(ref, c) for c in refcols])))
-        return "CREATE TABLE IF NOT EXISTS `{0}` (\n    {1}\n)".format(
-            translate(self.name), ',\n    '.join(clauses))
+        return "CREATE TABLE IF NOT EXISTS {0} (\n    {1}\n)".format(
+            quoted(translate(self.name)), ',\n    '.join(clauses))
 
 
 def schema(tg: csvw.TableGroup,
@@ -405,9 +405,9 @@ class Database(object):
 
     def select_many_to_many(self, db, table, context) -> dict:
         if context is not None:
-            context_sql = "WHERE context = '{0}'".format(context)
+            context_sql, params = "WHERE context = ?", (context,)
         else:
-            context_sql = ''
+            context_sql, params = '', ()
         sql = """\
 SELECT {0}, group_concat({1}, ' '), group_concat(COALESCE(context, ''), '||')
 FROM {2} {3} GROUP BY {0}""".format(
@@ -415,7 +415,7 @@ FROM {2} {3} GROUP BY {0}""".format(
                 quoted(self.translate(table.name, table.columns[1].name)),
                 quoted(self.translate(table.name)),
                 context_sql)
-        cu = db.execute(sql)
+        cu = db.execute(sql, params)
         return {
             r[0]: [(k, v) if context is None else k
                    for k, v in zip(r[1].split(), r[2].split('||'))] for r in cu.fetchall()}
-- 
2.43.0


From 18e19cf4063f5dd2bc78e585401d2155fbc16099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:14 +0000
Subject: [PATCH 19/49] fix: keep columns of composite foreign keys paired in
 the database schema

---
 src/csvw/db.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index a9b0013..5b8e787 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -225,7 +225,7 @@ class TableSpec(object):
         :return: `TableSpec` instance.
         """
         spec = cls(name=table.local_name, primary_key=table.tableSchema.primaryKey)
-        list_valued = {c.header for c in table.tableSchema.columns if c.separator}
+        list_valued = {c.header for c in table.tableSchema.columns if c.inherit('separator')}
         for fk in table.tableSchema.foreignKeys:
             # We only support Foreign Key references between tables!
             if not fk.reference.schemaReference:
@@ -246,9 +246,9 @@ class TableSpec(object):
                     )
                 elif not (drop_self_referential_fks and fk.reference.resource.string == spec.name):
                     spec.foreign_keys.append((
-                        sorted(fk.columnReference),
+                        list(fk.columnReference),
                         fk.reference.resource.string,
-                        sorted(fk.reference.columnReference),
+                        list(fk.reference.columnReference),
                     ))
         for c in table.tableSchema.columns:
             if c.header not in spec.many_to_many:
-- 
2.43.0


From 862bb21e07ef2bff64d2ba647e00f45e8a8aab5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:15 +0000
Subject: [PATCH 20/49] fix: enforce all length and range constraints of a
 datatype in the database

---
 src/csvw/db.py | 42 +++++++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index 5b8e787..898be57 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -154,32 +154,36 @@ class ColSpec:
         :param translate: Callable to translate column names between CSVW metadata and DB schema.
         :return: A string suitable as argument of an SQL CHECK constraint.
         """
-        if not self.csvw:
+        if not self.csvw or self.separator:  # The constraints apply to the items of a list.
             return
         c, cname = self.csvw, quoted(translate(self.name))
         constraints = []
-        if (c.minimum is not None) or (c.maximum is not None):
+        if isinstance(c.basetype(), (DATATYPES['decimal'], DATATYPES['float'])):
+            expr, value = ('CAST({0} AS NUMERIC)' if self.db_type == 'TEXT' else '{0}'), '{0}'
+        else:
             func = {
                 'date': 'date',
                 'datetime': 'datetime',
+                'dateTime': 'datetime',
+                'dateTimeStamp': 'datetime',
             }.get(self.csvw_type)
-            if c.minimum is not None:
-                if func:
-                    constraints.append("{2}({0}) >= {2}('{1}')".format(cname, c.minimum, func))
-                else:
-                    constraints.append('{0} >= {1}'.format(cname, c.minimum))
-            if c.maximum is not None:
-                if func:
-                    constraints.append("{2}({0}) <= {2}('{1}')".format(cname, c.maximum, func))
-                else:
-                    constraints.append('{0} <= {1}'.format(cname, c.maximum))
-        elif any(cc is not None for cc in [c.length, c.minLength, c.maxLength]):
-            if c.length:
-                constraints.append('length({0}) = {1}'.format(cname, c.length))
-            if c.minLength:
-                constraints.append('length({0}) >= {1}'.format(cname, c.minLength))
-            if c.maxLength:
-                constraints.append('length({0}) <= {1}'.format(cname, c.maxLength))
+            expr, value = ('{0}({{0}})'.format(func), "{0}('{{0}}')".format(func)) if func \
+                else (None, None)  # SQLite cannot compare the values.
+        if expr:
+            for op, bounds in [
+                ('>=', [c.minimum, c.minInclusive]),
+                ('>', [c.minExclusive]),
+                ('<=', [c.maximum, c.maxInclusive]),
+                ('<', [c.maxExclusive]),
+            ]:
+                constraints.extend(
+                    '{0} {1} {2}'.format(expr.format(cname), op, value.format(bound))
+                    for bound in bounds if bound is not None)
+        # The length of a value is only known to SQLite if the value itself is stored.
+        if self.db_type == 'BLOB' or self.convert in (identity, DATATYPES['string'].to_string):
+            for op, length in [('=', c.length), ('>=', c.minLength), ('<=', c.maxLength)]:
+                if length is not None:
+                    constraints.append('length({0}) {1} {2}'.format(cname, op, length))
         return ' AND '.join(constraints)
 
     def sql(self, translate: ColumnTranslator) -> str:
-- 
2.43.0


From bcd87ba10bff4650e85de509a507267e0fc2b080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:17 +0000
Subject: [PATCH 21/49] fix: order any number of tables by their references

---
 src/csvw/db.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index 898be57..338da33 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -330,19 +330,17 @@ def schema(tg: csvw.TableGroup,
 
     # We must determine the order in which tables must be created!
     ordered = collections.OrderedDict()
-    i = 0
 
     # We loop through the tables repeatedly, and whenever we find one, which has all
     # referenced tables already in ordered, we move it from tables to ordered.
-    while tables and i < 100:
-        i += 1
+    while tables:
         for table in list(tables.keys()):
             if all((ref[1] in ordered) or ref[1] == table for ref in tables[table].foreign_keys):
                 # All referenced tables are already created (or self-referential).
                 ordered[table] = tables.pop(table)
                 break
-    if tables:  # pragma: no cover
-        raise ValueError('there seem to be cyclic dependencies between the tables')
+        else:  # pragma: no cover
+            raise ValueError('there seem to be cyclic dependencies between the tables')
 
     return list(ordered.values())
 
-- 
2.43.0


From 9d58a63b43843d7099e5aabb5abe4042707444d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:19 +0000
Subject: [PATCH 22/49] fix: insert values by column when rows have different
 keys

---
 src/csvw/db.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index 338da33..39201d1 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -540,13 +540,13 @@ FROM {2} {3} GROUP BY {0}""".format(
                     continue
                 rows, keys = [], []
                 cols = {c.name: c for c in t.columns}
-                for i, row in enumerate(items[t.name]):
+                for row in items[t.name]:
                     pk = row[t.primary_key[0]] \
                         if t.primary_key and len(t.primary_key) == 1 else None
-                    values = []
+                    values = {}
                     for k, v in row.items():
                         if k in t.many_to_many:
-                            assert pk
+                            assert pk is not None
                             at = t.many_to_many[k]
                             atkey = tuple([at.name] + [c.name for c in at.columns])
                             # We distinguish None - meaning NULL - and [] - meaning no items - as
@@ -571,10 +571,12 @@ FROM {2} {3} GROUP BY {0}""".format(
                                     v = json.dumps(v)
                             else:
                                 v = col.convert(v) if v is not None else None
-                            if i == 0:
-                                keys.append(col.name)
-                            values.append(v)
-                    rows.append(tuple(values))
+                            if k not in keys:
+                                keys.append(k)
+                            values[k] = v
+                    rows.append(values)
+                # Rows may have different keys, or keys in different order.
+                rows = [tuple(row.get(k) for k in keys) for row in rows]
                 insert(db, self.translate, t.name, keys, *rows)
 
             for atkey, rows in refs.items():
-- 
2.43.0


From cc528396c0187310c1b61c9d4f43667535c22028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:49 +0000
Subject: [PATCH 23/49] fix: convert the items of lists written to and read
 from the database

---
 src/csvw/db.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index 39201d1..c3e40d9 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -145,6 +145,9 @@ class ColSpec:
             self.convert = DATATYPES[self.csvw_type].to_string
             self.read = DATATYPES[self.csvw_type].to_python
         if self.separator and self.db_type != 'TEXT':
+            if self.db_type == 'BLOB':  # Lists are stored as JSON, which doesn't know bytes.
+                self.convert = DATATYPES[self.csvw_type].to_string
+                self.read = DATATYPES[self.csvw_type].to_python
             self.db_type = 'TEXT'
 
     def check(self, translate: ColumnTranslator) -> typing.Optional[str]:
@@ -453,12 +456,7 @@ FROM {2} {3} GROUP BY {0}""".format(
 
                 # Assemble the conversion dictionary:
                 for col in table.columns:
-                    convert[self.translate(tname, col.name)] = [col.name, identity]
-                    if col.csvw_type in TYPE_MAP:
-                        convert[self.translate(tname, col.name)][1] = TYPE_MAP[col.csvw_type][2]
-                    else:
-                        convert[self.translate(tname, col.name)][1] = \
-                            DATATYPES[col.csvw_type].to_python
+                    convert[self.translate(tname, col.name)] = [col.name, col.read]
                     if col.separator:
                         if col.csvw_type == 'string':
                             seps[self.translate(tname, col.name)] = col.separator
@@ -480,7 +478,9 @@ FROM {2} {3} GROUP BY {0}""".format(
                             elif not v:
                                 d[k] = []
                             elif seps[k] == 'json':
-                                d[k] = json.loads(v)
+                                d[k] = [
+                                    None if v_ is None else convert[k][1](v_)
+                                    for v_ in json.loads(v)]
                             else:
                                 d[k] = [convert[k][1](v_) for v_ in (v or '').split(seps[k])]
                         else:
@@ -568,7 +568,9 @@ FROM {2} {3} GROUP BY {0}""".format(
                                     v = (col.separator or ';').join(
                                         col.convert(vv) or '' for vv in v)
                                 else:
-                                    v = json.dumps(v)
+                                    v = json.dumps([
+                                        None if vv is None else col.convert(vv) for vv in v]
+                                        if col.separator else v)
                             else:
                                 v = col.convert(v) if v is not None else None
                             if k not in keys:
-- 
2.43.0


From ae223c57f8d70316e2cffa827e5833fe1e6346ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:51 +0000
Subject: [PATCH 24/49] fix: read decimals from the database without binary
 rounding noise

---
 src/csvw/db.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index c3e40d9..6f8fa74 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -61,7 +61,7 @@ TYPE_MAP = {
     'decimal': (
         'REAL',
         lambda s: s if s is None else float(s),
-        lambda s: s if s is None else decimal.Decimal(s)),
+        lambda s: s if s is None else decimal.Decimal(str(s))),
     'hexBinary': (
         'BLOB',
         identity,
-- 
2.43.0


From d2733f0677818fc41d6fda0cae9e308ab8438db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:52 +0000
Subject: [PATCH 25/49] fix: keep keys of list-valued foreign keys intact in
 the database

---
 src/csvw/db.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index 6f8fa74..f8db54b 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -331,6 +331,14 @@ def schema(tg: csvw.TableGroup,
         for at in t.many_to_many.values():
             tables[at.name] = at
 
+    # The columns of association tables have the types of the columns they reference.
+    for t in list(tables.values()):
+        for at in t.many_to_many.values():
+            for i, (_, ref, (refcol,)) in enumerate(at.foreign_keys):
+                for col in tables[ref].columns if ref in tables else []:
+                    if col.name == refcol:
+                        at.columns[i] = ColSpec(at.columns[i].name, csvw_type=col.csvw_type)
+
     # We must determine the order in which tables must be created!
     ordered = collections.OrderedDict()
 
@@ -414,16 +422,18 @@ class Database(object):
         else:
             context_sql, params = '', ()
         sql = """\
-SELECT {0}, group_concat({1}, ' '), group_concat(COALESCE(context, ''), '||')
-FROM {2} {3} GROUP BY {0}""".format(
+SELECT {0}, {1}, COALESCE(context, '')
+FROM {2} {3} ORDER BY rowid""".format(
                 quoted(self.translate(table.name, table.columns[0].name)),
                 quoted(self.translate(table.name, table.columns[1].name)),
                 quoted(self.translate(table.name)),
                 context_sql)
-        cu = db.execute(sql, params)
-        return {
-            r[0]: [(k, v) if context is None else k
-                   for k, v in zip(r[1].split(), r[2].split('||'))] for r in cu.fetchall()}
+        res = collections.defaultdict(list)
+        for pk, k, v in db.execute(sql, params):
+            pk, k = [
+                None if v_ is None else c.read(v_) for c, v_ in zip(table.columns, [pk, k])]
+            res[pk].append((k, v) if context is None else k)
+        return res
 
     def separator(self, tname: str, cname: str) -> typing.Optional[str]:
         """
@@ -582,6 +592,9 @@ FROM {2} {3} GROUP BY {0}""".format(
                 insert(db, self.translate, t.name, keys, *rows)
 
             for atkey, rows in refs.items():
-                insert(db, self.translate, atkey[0], atkey[1:], *rows)
+                cols = self.tdict[atkey[0]].columns[:2]
+                insert(db, self.translate, atkey[0], atkey[1:], *[
+                    [None if v is None else c.convert(v) for c, v in zip(cols, row)] + [row[2]]
+                    for row in rows])
 
             db.commit()
-- 
2.43.0


From 9fcf9e8ca151b28f318cc16011e1faadec8471df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:54 +0000
Subject: [PATCH 26/49] fix: translate names of empty list-valued foreign keys
 read from the database

---
 src/csvw/db.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index f8db54b..da191d6 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -497,7 +497,7 @@ FROM {2} {3} ORDER BY rowid""".format(
                             d[k] = convert[k][1](v) if v is not None else None
                     pk = d[self.translate(tname, table.primary_key[0])] \
                         if table.primary_key and len(table.primary_key) == 1 else None
-                    d.update({k: [] for k in table.many_to_many})
+                    d.update({self.translate(tname, k): [] for k in table.many_to_many})
                     d.update(refs.get(pk, {}))
                     res[self.translate(tname)].append(d)
         return res
-- 
2.43.0


From f7f459cb06a1f1e11690ceb1496d99372d9ce4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:33 +0000
Subject: [PATCH 27/49] fix: read string lists whose separator is the text json
 from the database

---
 src/csvw/db.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index da191d6..bc5a11b 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -471,7 +471,7 @@ FROM {2} {3} ORDER BY rowid""".format(
                         if col.csvw_type == 'string':
                             seps[self.translate(tname, col.name)] = col.separator
                         else:
-                            seps[self.translate(tname, col.name)] = 'json'
+                            seps[self.translate(tname, col.name)] = None  # Stored as JSON.
 
                 # Retrieve the many-to-many relations:
                 for col, at in table.many_to_many.items():
@@ -487,7 +487,7 @@ FROM {2} {3} ORDER BY rowid""".format(
                                 d[k] = None
                             elif not v:
                                 d[k] = []
-                            elif seps[k] == 'json':
+                            elif seps[k] is None:
                                 d[k] = [
                                     None if v_ is None else convert[k][1](v_)
                                     for v_ in json.loads(v)]
-- 
2.43.0


From c4658b745018cb4cfa17ec2abe7ab2bab2cac41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:11 +0000
Subject: [PATCH 28/49] fix: query the translated context column of association
 tables

---
 src/csvw/db.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index bc5a11b..a47255c 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -417,15 +417,17 @@ class Database(object):
         return self._connection
 
     def select_many_to_many(self, db, table, context) -> dict:
+        context_col = quoted(self.translate(table.name, table.columns[2].name))
         if context is not None:
-            context_sql, params = "WHERE context = ?", (context,)
+            context_sql, params = "WHERE {0} = ?".format(context_col), (context,)
         else:
             context_sql, params = '', ()
         sql = """\
-SELECT {0}, {1}, COALESCE(context, '')
-FROM {2} {3} ORDER BY rowid""".format(
+SELECT {0}, {1}, COALESCE({2}, '')
+FROM {3} {4} ORDER BY rowid""".format(
                 quoted(self.translate(table.name, table.columns[0].name)),
                 quoted(self.translate(table.name, table.columns[1].name)),
+                context_col,
                 quoted(self.translate(table.name)),
                 context_sql)
         res = collections.defaultdict(list)
-- 
2.43.0


From d92215d7635fabc9cb6f64a02d1a9f73bf8b58c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:11 +0000
Subject: [PATCH 29/49] fix: accept floats as @value, and check the value of
 @value also if it is the only property

---
 src/csvw/metadata.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 849acee..e3cdf56 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -390,15 +390,13 @@ def valid_common_property(v):
                 "Aside from @value, @type, @language, and @id, the properties used on an object "
                 "MUST NOT start with @.")
         if '@value' in v:
-            if len(v) > 1:
-                if len(v) > 2 \
-                        or set(v.keys()) not in [{'@value', '@language'}, {'@value', '@type'}] \
-                        or not isinstance(v['@value'], (str, bool, int, decimal.Decimal)):
-                    raise ValueError(
-                        "If a @value property is used on an object, that object MUST NOT have "
-                        "any other properties aside from either @type or @language, and MUST "
-                        "NOT have both @type and @language as properties. The value of the "
-                        "@value property MUST be a string, number, or boolean value.")
+            if set(v.keys()) not in [{'@value'}, {'@value', '@language'}, {'@value', '@type'}] \
+                    or not isinstance(v['@value'], (str, bool, int, float, decimal.Decimal)):
+                raise ValueError(
+                    "If a @value property is used on an object, that object MUST NOT have "
+                    "any other properties aside from either @type or @language, and MUST "
+                    "NOT have both @type and @language as properties. The value of the "
+                    "@value property MUST be a string, number, or boolean value.")
         if '@language' in v and '@value' not in v:
             raise ValueError(
                 "A @language property MUST NOT be used on an object unless it also has a "
-- 
2.43.0


From 1f6303b38fbf40a14d6916240439d540b919bd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:11 +0000
Subject: [PATCH 30/49] fix: check all members if @type of a common property is
 a list

---
 src/csvw/metadata.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index e3cdf56..0cf0578 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -408,21 +408,21 @@ def valid_common_property(v):
                 warnings.warn('Invalid language tag')
                 del v['@language']
         if '@type' in v:
-            vv = v['@type']
-            if isinstance(vv, str):
-                if vv.startswith('_:'):
-                    raise ValueError(
-                        'The value of any @id or @type contained within a metadata document '
-                        'MUST NOT be a blank node.')
-                if not is_url(vv) and \
-                        not any(vv == ns or vv.startswith(ns + ':') for ns in NAMESPACES) and \
-                        vv not in CSVW_TERMS:
-                    raise ValueError(
-                        'The value of any member of @type MUST be either a term defined in '
-                        '[csvw-context], a prefixed name where the prefix is a term defined in '
-                        '[csvw-context], or an absolute URL.')
-            elif not isinstance(vv, (list, dict)):
+            if not isinstance(v['@type'], (str, list, dict)):
                 raise ValueError('Invalid datatype for @type')
+            for vv in v['@type'] if isinstance(v['@type'], list) else [v['@type']]:
+                if isinstance(vv, str):
+                    if vv.startswith('_:'):
+                        raise ValueError(
+                            'The value of any @id or @type contained within a metadata document '
+                            'MUST NOT be a blank node.')
+                    if not is_url(vv) and \
+                            not any(vv == ns or vv.startswith(ns + ':') for ns in NAMESPACES) and \
+                            vv not in CSVW_TERMS:
+                        raise ValueError(
+                            'The value of any member of @type MUST be either a term defined in '
+                            '[csvw-context], a prefixed name where the prefix is a term defined in '
+                            '[csvw-context], or an absolute URL.')
         return {k: valid_common_property(vv) for k, vv in v.items()}
     if isinstance(v, list):
         return [valid_common_property(vv) for vv in v]
-- 
2.43.0


From 14e24c863abb198407928afa534aa1386cb5c03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:11 +0000
Subject: [PATCH 31/49] fix: reject foreign keys without reference with
 ValueError

---
 src/csvw/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 0cf0578..bb23da4 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -892,7 +892,7 @@ class ForeignKey:
         if isinstance(d, dict):
             try:
                 _ = Reference(**d['reference'])
-            except TypeError:
+            except (KeyError, TypeError):
                 raise ValueError('Invalid reference property')
             if not set(d.keys()).issubset({'columnReference', 'reference'}):
                 raise ValueError('Invalid foreignKey spec')
-- 
2.43.0


From 3a0fa066b0cda515ccdab4d09f46526175016705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:25 +0000
Subject: [PATCH 32/49] fix: resolve tables of a group against the base in the
 context of the group

---
 src/csvw/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index bb23da4..2d56672 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1133,7 +1133,7 @@ class TableLike(Description):
         """
         at_props = self._parent.at_props if self._parent else self.at_props
         ctxbase = None
-        for obj in self.at_props.get('context', []):
+        for obj in at_props.get('context', []):
             if isinstance(obj, dict) and '@base' in obj:
                 ctxbase = obj['@base']
         if 'base' in at_props:
-- 
2.43.0


From aefaff00264ef7d6322110165434284315a9c30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:02 +0000
Subject: [PATCH 33/49] fix: resolve references in overriding or located
 metadata against its own location

---
 src/csvw/metadata.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 2d56672..08424f7 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1675,11 +1675,14 @@ class CSVW:
             no_header = False
             try:
                 md = get_json(md_url or url)
+                # References in metadata are relative to its own location, not that of the data.
+                location = md_url or url
                 # The URL could be read as JSON document, thus, the user supplied us with overriding
                 # metadata as per https://w3c.github.io/csvw/syntax/#overriding-metadata
             except json.decoder.JSONDecodeError:
                 # So we got a CSV file, no JSON. Let's locate metadata using the other methods.
                 md, no_header = self.locate_metadata(url)
+                location = url
 
             self.no_metadata = set(md.keys()) == {'@context', 'url'}
             if "http://www.w3.org/ns/csvw" not in md.get('@context', ''):
@@ -1687,21 +1690,21 @@ class CSVW:
             if 'tables' in md:
                 if not md['tables'] or not isinstance(md['tables'], list):
                     raise ValueError('Invalid TableGroup with empty tables property')
-                if is_url(url):
-                    self.t = TableGroup.from_url(url, data=md)
+                if is_url(str(location)):
+                    self.t = TableGroup.from_url(str(location), data=md)
                     self.t.validate_schema(strict=True)
                 else:
-                    self.t = TableGroup.from_file(url, data=md)
+                    self.t = TableGroup.from_file(location, data=md)
             else:
-                if is_url(url):
-                    self.t = Table.from_url(url, data=md)
+                if is_url(str(location)):
+                    self.t = Table.from_url(str(location), data=md)
                     if no_header:
                         if self.t.dialect:
                             self.t.dialect.header = False  # pragma: no cover
                         else:
                             self.t.dialect = Dialect(header=False)
                 else:
-                    self.t = Table.from_file(url, data=md)
+                    self.t = Table.from_file(location, data=md)
             self.tables = self.t.tables if isinstance(self.t, TableGroup) else [self.t]
             for table in self.tables:
                 for col in table.tableSchema.columns:
@@ -1763,8 +1766,10 @@ class CSVW:
             desc = res.links.get('describedby')
             if desc and desc['type'] in [
                     "application/csvm+json", "application/ld+json", "application/json"]:
-                md = get_json(Link(desc['url']).resolve(url))
+                location = Link(desc['url']).resolve(url)
+                md = get_json(location)
                 if describes(md, url):
+                    md.setdefault('@base', location)
                     return md, no_header
                 else:
                     warnings.warn('Ignoring linked metadata because it does not reference the data')
@@ -1775,11 +1780,13 @@ class CSVW:
             res = requests.get(Link('/.well-known/csvm').resolve(url))
             locs = res.text if res.status_code == 200 else '{+url}-metadata.json\ncsv-metadata.json'
             for line in locs.split('\n'):
-                res = requests.get(Link(URITemplate(line).expand(url=url)).resolve(url))
+                location = Link(URITemplate(line).expand(url=url)).resolve(url)
+                res = requests.get(location)
                 if res.status_code == 200:
                     try:
                         md = res.json()
                         if describes(md, url):
+                            md.setdefault('@base', location)
                             return md, no_header
                         warnings.warn('Ignoring metadata because it does not reference the data')
                     except json.JSONDecodeError:
-- 
2.43.0


From 531db5e8f11b54fbdeeaad5f7653146d1f1c0fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:19 +0000
Subject: [PATCH 34/49] fix: replace lists given for properties which are not
 list-valued by the default

---
 src/csvw/metadata.py | 42 ++++++++++++++++++++++++++++++++----------
 src/csvw/utils.py    |  4 ++--
 2 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 08424f7..c5d79aa 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -720,13 +720,13 @@ class Description(DescriptionBase):
         converter=lambda v: v if not v else Datatype.fromvalue(v))
     default = attr.ib(
         default="",
-        converter=functools.partial(utils.converter, str, "", allow_list=False),
+        converter=functools.partial(utils.converter, str, ""),
     )
     lang = attr.ib(default="und", converter=converter_lang)
     null = attr.ib(default=attr.Factory(lambda: [""]), converter=converter_null)
     ordered = attr.ib(
         default=None,
-        converter=functools.partial(utils.converter, bool, False, allow_none=True),
+        converter=functools.partial(utils.converter, bool, None, allow_none=True),
     )
     propertyUrl = uri_template_property()
     required = attr.ib(default=None)
@@ -905,9 +905,17 @@ class ForeignKey:
         return res
 
 
+def converter_names(v, default):
+    return utils.converter(
+        list,
+        default,
+        v if isinstance(v, list) else [v],
+        cond=lambda names: all(isinstance(name, str) for name in names))
+
+
 def converter_foreignKeys(v):
     res = []
-    for d in functools.partial(utils.converter, dict, None)(v):
+    for d in utils.converter(dict, None, utils.converter(list, [], v), allow_list=True):
         try:
             res.append(ForeignKey.fromdict(d))
         except TypeError:
@@ -929,15 +937,19 @@ class Schema(Description):
     columns = attr.ib(
         default=attr.Factory(list),
         converter=lambda v: [
-            Column.fromvalue(c) for c in functools.partial(utils.converter, dict, None)(
+            Column.fromvalue(c) for c in functools.partial(
+                utils.converter, dict, None, allow_list=True)(
                 functools.partial(utils.converter, list, [])(v))])
     foreignKeys = attr.ib(
         default=attr.Factory(list),
         converter=lambda v: [] if v is None else converter_foreignKeys(v))
-    primaryKey = column_reference()
+    primaryKey = attr.ib(
+        default=None,
+        validator=attr.validators.optional(attr.validators.instance_of(list)),
+        converter=lambda v: None if v is None else converter_names(v, None))
     rowTitles = attr.ib(
         default=attr.Factory(list),
-        converter=lambda v: v if isinstance(v, list) else [v],
+        converter=lambda v: converter_names(v, []),
     )
 
     def __attrs_post_init__(self):
@@ -999,17 +1011,27 @@ def dialect_props(d):
     if not isinstance(d, dict):
         warnings.warn('Invalid dialect spec')
         return {}
-    partitioned = Description.partition_properties(d, type_name='Dialect', strict=False)
+    unknown = [
+        k for k in d if not k.startswith('@') and ':' not in k and k not in attr.fields_dict(Dialect)]
+    for k in unknown:
+        warnings.warn('Invalid property {} for Dialect'.format(k))
+    partitioned = Description.partition_properties(
+        {k: v for k, v in d.items() if k not in unknown}, type_name='Dialect', strict=False)
     del partitioned['at_props']
     del partitioned['common_props']
-    if partitioned.get('headerRowCount'):
+    if utils.converter(int, 0, partitioned.get('headerRowCount', 0)) > 0:
         partitioned['header'] = True
     return partitioned
 
 
+def converter_dialect(v):
+    if v is None or isinstance(v, str):
+        return v
+    props = dialect_props(v)
+    return Dialect(**props) if isinstance(v, dict) else None
+
+
 def valid_transformations(instance, attribute, value):
-    if not isinstance(value, list):
-        warnings.warn('Invalid transformations property')
     for tr in value:
         Description.partition_properties(tr, type_name='Template')
 
diff --git a/src/csvw/utils.py b/src/csvw/utils.py
index affbfdf..c0ca9b7 100644
--- a/src/csvw/utils.py
+++ b/src/csvw/utils.py
@@ -16,8 +16,8 @@ def is_url(s):
     return re.match(r'https?://', str(s))
 
 
-def converter(type_, default, s, allow_none=False, cond=None, allow_list=True):
-    if allow_list and type_ != list and isinstance(s, list):
+def converter(type_, default, s, allow_none=False, cond=None, allow_list=False):
+    if allow_list and isinstance(s, list):
         return [v for v in [converter(type_, None, ss, cond=cond) for ss in s] if v is not None]
 
     if allow_none and s is None:
-- 
2.43.0


From 9d6b45b215ee2d038b1d90fd28059408c4d6d119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:19 +0000
Subject: [PATCH 35/49] fix: replace invalid values of trim, encoding and
 lineTerminators by the default

---
 src/csvw/dsv_dialects.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/csvw/dsv_dialects.py b/src/csvw/dsv_dialects.py
index e35f391..f13db13 100644
--- a/src/csvw/dsv_dialects.py
+++ b/src/csvw/dsv_dialects.py
@@ -36,7 +36,7 @@ def convert_encoding(s):
     try:
         _ = 'x'.encode(ENCODING_MAP.get(s, s))
         return s
-    except LookupError:
+    except (LookupError, ValueError):
         warnings.warn('Invalid value for property: {}'.format(s))
         return 'utf-8'
 
@@ -55,7 +55,8 @@ class Dialect(object):
         validator=attr.validators.instance_of(str))
 
     lineTerminators = attr.ib(
-        converter=functools.partial(utils.converter, list, ['\r\n', '\n']),
+        converter=lambda v: utils.converter(
+            (list, str), ['\r\n', '\n'], v, cond=lambda s: all(isinstance(ss, str) for ss in s)),
         default=attr.Factory(lambda: ['\r\n', '\n']))
 
     quoteChar = attr.ib(
@@ -111,9 +112,11 @@ class Dialect(object):
     trim = attr.ib(
         default='false',
         validator=attr.validators.in_(['true', 'false', 'start', 'end']),
-        converter=lambda v: functools.partial(
-            utils.converter,
-            (str, bool), 'false')('{0}'.format(v).lower() if isinstance(v, bool) else v))
+        converter=lambda v: utils.converter(
+            str,
+            'false',
+            '{0}'.format(v).lower() if isinstance(v, bool) else v,
+            cond=lambda s: s in ['true', 'false', 'start', 'end']))
 
     def updated(self, **kw):
         res = self.__class__(**attr.asdict(self))
-- 
2.43.0


From 7334ed4dbe4077aed021b2889f2799eee3c95eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:19 +0000
Subject: [PATCH 36/49] fix: ignore unknown properties of dialects, and
 properties named like private attributes

---
 src/csvw/metadata.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index c5d79aa..db8025c 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -446,7 +446,8 @@ class DescriptionBase:
                              strict=True) -> typing.Union[dict, None]:
         if d and not isinstance(d, dict):
             return
-        fields = attr.fields_dict(cls)
+        fields = {k for k in attr.fields_dict(cls) if not k.startswith('_')}.difference(
+            ['common_props', 'at_props'])
         type_name = type_name or cls.__name__
         c, a, dd = {}, {}, {}
         for k, v in (d or {}).items():
@@ -1065,8 +1066,7 @@ class TableLike(Description):
     """
     dialect = attr.ib(
         default=None,
-        converter=lambda v: v if (v is None or isinstance(v, str))
-        else Dialect(**dialect_props(v)))
+        converter=converter_dialect)
     notes = attr.ib(default=attr.Factory(list))
     tableDirection = attr.ib(
         default='auto',
-- 
2.43.0


From 605eb267f4bae8bd4dba83fc058452167f01773f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:19 +0000
Subject: [PATCH 37/49] fix: replace invalid values of ordered, suppressOutput,
 tableSchema and tables by the default

---
 src/csvw/metadata.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index db8025c..a0b67dc 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -987,7 +987,7 @@ class Schema(Description):
             except:  # pragma: no cover # noqa: E722
                 return v
         if not isinstance(v, dict):
-            if isinstance(v, int):
+            if v is not None:
                 warnings.warn('Invalid value for tableSchema property')
             v = {}
         return cls(**cls.partition_properties(v))
@@ -1078,6 +1078,7 @@ class TableLike(Description):
         converter=lambda v: Schema.fromvalue(v))
     transformations = attr.ib(
         validator=valid_transformations,
+        converter=functools.partial(utils.converter, list, []),
         default=attr.Factory(list),
     )
     url = link_property()
@@ -1223,7 +1224,9 @@ class Table(TableLike):
 
     .. seealso:: `<https://www.w3.org/TR/tabular-metadata/#tables>`_
     """
-    suppressOutput = attr.ib(default=False)
+    suppressOutput = attr.ib(
+        default=False,
+        converter=functools.partial(utils.converter, bool, False))
     _comments = []
 
     def add_foreign_key(self, colref, ref_resource, ref_colref):
@@ -1508,7 +1511,7 @@ class Table(TableLike):
 
 def converter_tables(v):
     res = []
-    for vv in v:
+    for vv in utils.converter((list, tuple), [], v):
         if not isinstance(vv, (dict, Table)):
             warnings.warn('Invalid value for Table spec')
         else:
-- 
2.43.0


From 0f7417107e1af761349e0293e951c182a0751abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:00 +0000
Subject: [PATCH 38/49] fix: simplify JSON-LD literals which are no strings

---
 src/csvw/jsonld.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/jsonld.py b/src/csvw/jsonld.py
index 92daa46..5f14bc0 100644
--- a/src/csvw/jsonld.py
+++ b/src/csvw/jsonld.py
@@ -118,7 +118,7 @@ def to_json(obj, flatten_list=False):
     if isinstance(obj, dict):
         if '@value' in obj:
             obj = obj['@value']
-        if len(obj) == 1 and '@id' in obj:
+        elif len(obj) == 1 and '@id' in obj:
             obj = obj['@id']
     if isinstance(obj, dict):
         return {
-- 
2.43.0


From 1d7040e43cd856f16b03b51cf9f098f69064159c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:00 +0000
Subject: [PATCH 39/49] fix: keep objects which refer to themselves or to each
 other when framing

---
 src/csvw/jsonld.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/csvw/jsonld.py b/src/csvw/jsonld.py
index 5f14bc0..72647a6 100644
--- a/src/csvw/jsonld.py
+++ b/src/csvw/jsonld.py
@@ -94,7 +94,7 @@ def frame(data: list) -> list:
 
     .. see:: https://w3c.github.io/json-ld-framing/#introduction
     """
-    items, refs = collections.OrderedDict(), {}
+    items, refs, parents = collections.OrderedDict(), {}, {}
     for item in data:
         itemid = item.get('@id')
         if itemid:
@@ -107,7 +107,12 @@ def frame(data: list) -> list:
                         refs.setdefault(refid, (v, []))[1].append(item)
     for ref, subjects in refs.values():
         if len(subjects) == 1 and ref['@id'] in items:
-            ref.update(items.pop(ref['@id']))
+            root = subjects[0].get('@id')
+            while root in parents:
+                root = parents[root]
+            if root != ref['@id']:  # Objects must not become part of themselves.
+                parents[ref['@id']] = root
+                ref.update(items.pop(ref['@id']))
     return list(items.values())
 
 
-- 
2.43.0


From 33d55c5e3098285de49dd3d4b2a7577ec92f8cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:31 +0000
Subject: [PATCH 40/49] fix: keep all cells and list values of rows describing
 several subjects in JSON

---
 src/csvw/jsonld.py | 85 ++++++++++++++++++++--------------------------
 1 file changed, 37 insertions(+), 48 deletions(-)

diff --git a/src/csvw/jsonld.py b/src/csvw/jsonld.py
index 72647a6..d9696df 100644
--- a/src/csvw/jsonld.py
+++ b/src/csvw/jsonld.py
@@ -1,5 +1,4 @@
 import re
-import json
 import math
 import typing
 import decimal
@@ -8,7 +7,7 @@ import datetime
 import collections
 
 import attr
-from rdflib import Graph, URIRef, Literal
+from rdflib import URIRef, Literal
 from rfc3986 import URIReference
 from isodate.duration import Duration
 
@@ -140,55 +139,45 @@ def group_triples(triples: typing.Iterable[Triple]) -> typing.List[dict]:
     """
     Group and frame triples into a `list` of JSON objects.
     """
-    merged = []
+    grouped, nodes = collections.OrderedDict(), collections.OrderedDict()
+
+    def add(node, prop, value):
+        # Several values of a property make up a list.
+        if prop in node:
+            value = [
+                v for vs in (node[prop], value) for v in (vs if isinstance(vs, list) else [vs])]
+        node[prop] = value
+
     for triple in triples:
-        if isinstance(triple.value, list):
-            for t in merged:
-                if t.property == triple.property and isinstance(t.value, list):
-                    t.value.extend(triple.value)
-                    break
-            else:
-                merged.append(triple)
-        else:
-            merged.append(triple)
-
-    grouped = collections.OrderedDict()
-    triples = []
-    # First pass: get top-level properties.
-    for triple in merged:
-        if triple.about is None and triple.property == '@id':
-            grouped[triple.property] = triple.value
+        if triple.about:
+            node = nodes.setdefault(
+                triple.about, collections.OrderedDict([('@id', triple.about)]))
+            add(node, triple.property, triple.value)
+        elif triple.property == '@id':
+            grouped['@id'] = triple.value
         else:
-            if not triple.about:
-                # For test48
-                if triple.property in grouped:
-                    if not isinstance(grouped[triple.property], list):
-                        grouped[triple.property] = [grouped[triple.property]]
-                    grouped[triple.property].append(triple.value)
-                else:
-                    grouped[triple.property] = triple.value
-            else:
-                triples.append(triple)
-    if not triples:
+            add(grouped, triple.property, triple.value)
+    if not nodes:
         return [grouped]
 
-    g = Graph()
-    for triple in triples:
-        g.add(triple.as_rdflib_triple())
-    if '@id' in grouped:
-        for prop, val in grouped.items():
-            if prop != '@id':
-                g.add(Triple(about=grouped['@id'], property=prop, value=val).as_rdflib_triple())
-    res = g.serialize(format='json-ld')
-    # Frame and simplify the resulting objects, augment with list index:
-    res = [(i, to_json(v, flatten_list=True)) for i, v in enumerate(frame(json.loads(res)))]
-    # Sort the objects making sure the one with the row's aboutUrl as @id comes first:
-    res = [k[1] for k in sorted(
-        res, key=lambda o: -1 if o[1].get('@id') == grouped.get('@id') else o[0])]
     # If there's no aboutUrl for the row and we have only one object from triples, we just merge
     # the properties into a single object.
-    if grouped and ('@id' not in grouped) and len(res) == 1:
-        grouped.update(res[0])
-        return [grouped]
-
-    return res
+    if '@id' not in grouped and len(nodes) == 1:
+        grouped['@id'] = list(nodes)[0]
+    # The object with the row's aboutUrl as @id comes first.
+    for prop, value in nodes.pop(grouped.get('@id'), {}).items():
+        if prop != '@id':
+            add(grouped, prop, value)
+    if any(prop != '@id' for prop in grouped):
+        nodes[None] = grouped
+        nodes.move_to_end(None, last=False)
+
+    def ref(value):
+        if isinstance(value, list):
+            return [ref(v) for v in value]
+        return {'@id': value} if is_url(value) else value
+
+    # Frame and simplify the resulting objects.
+    return to_json(frame([
+        collections.OrderedDict((p, v if p == '@id' else ref(v)) for p, v in node.items())
+        for node in nodes.values()]))
-- 
2.43.0


From f8c62d9aea05b90c054c737ad50b651da303508d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:31 +0000
Subject: [PATCH 41/49] fix: leave out empty lists with inherited separator and
 suppressed virtual columns from JSON

---
 src/csvw/metadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index a0b67dc..7b03d25 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1911,7 +1911,7 @@ class CSVW:
             # Skip null values:
             null = col.inherit_null() if col else table.inherit_null()
             if (null and v in null) or v == "" or (v is None) or \
-                    (col and col.separator and v == []):
+                    (col and col.inherit('separator') and v == []):
                 continue
 
             triples.append(jsonld.Triple.from_col(
@@ -1924,6 +1924,6 @@ class CSVW:
                 rownum))
 
         for col in table.tableSchema.columns:
-            if col.virtual:
+            if col.virtual and not col.suppressOutput:
                 triples.append(jsonld.Triple.from_col(table, col, row, col.header, None, rownum))
         return jsonld.group_triples(triples)
-- 
2.43.0


From 2879f340b9b036b30272f4e27173963bf6a59fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:31 +0000
Subject: [PATCH 42/49] fix: format items of lists, values with inherited
 datatype and fractions of seconds in JSON

---
 src/csvw/jsonld.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/csvw/jsonld.py b/src/csvw/jsonld.py
index d9696df..e30f937 100644
--- a/src/csvw/jsonld.py
+++ b/src/csvw/jsonld.py
@@ -20,27 +20,28 @@ def format_value(value, col):
     """
     Format values as JSON-LD literals.
     """
+    if isinstance(value, list):
+        return [format_value(v, col) for v in value]
+    datatype = col.inherit('datatype') if col else None
     if isinstance(value, (datetime.date, datetime.datetime, datetime.time)):
         res = value.isoformat()
-        if col and col.datatype.base == 'time':
+        if datatype and datatype.base == 'time':
             res = res.split('T')[-1]
-        if col and col.datatype.base == 'date':
+        if datatype and datatype.base == 'date':
             res = re.sub('T[0-9.:]+', '', res)
         if isinstance(value, (datetime.datetime, datetime.time)):
-            stamp, _, milliseconds = res.partition('.')
-            return '{}.{}'.format(stamp, milliseconds.rstrip('0')) if milliseconds \
-                else stamp.replace('+00:00', 'Z')
+            return re.sub(r'(\.[0-9]*[1-9])0+', r'\1', res).replace('+00:00', 'Z')
         return res  # pragma: no cover
     if isinstance(value, datetime.timedelta):
-        return col.datatype.formatted(value)
+        return datatype.formatted(value)
     if isinstance(value, Duration):
-        return col.datatype.formatted(value)
+        return datatype.formatted(value)
     if isinstance(value, decimal.Decimal):
         value = float(value)
     if isinstance(value, URIReference):
         return value.unsplit()
     if isinstance(value, bytes):
-        return col.datatype.formatted(value)
+        return datatype.formatted(value)
     if isinstance(value, pathlib.Path):
         return str(value)
     if isinstance(value, float):
-- 
2.43.0


From 2c9b58ccf064c0d7f6c298e0960219dec5fb96d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:31 +0000
Subject: [PATCH 43/49] fix: do not change columns when converting tables to
 JSON

---
 src/csvw/jsonld.py   | 4 ++--
 src/csvw/metadata.py | 4 ----
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/csvw/jsonld.py b/src/csvw/jsonld.py
index e30f937..b021dc5 100644
--- a/src/csvw/jsonld.py
+++ b/src/csvw/jsonld.py
@@ -72,12 +72,12 @@ class Triple:
         """
         _name = col.header if col else None
 
-        propertyUrl = col.propertyUrl if col else table.inherit('propertyUrl')
+        propertyUrl = (col or table).inherit('propertyUrl')
         if propertyUrl:
             prop = table.expand(propertyUrl, row, _row=rownum, _name=_name, qname=True)
 
         is_type = prop == 'rdf:type'
-        valueUrl = col.valueUrl if col else table.inherit('valueUrl')
+        valueUrl = (col or table).inherit('valueUrl')
         if valueUrl:
             val = table.expand(valueUrl, row, _row=rownum, _name=_name, qname=is_type)
         val = format_value(val, col)
diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 7b03d25..6dbb9d8 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1866,10 +1866,6 @@ class CSVW:
         res.update(jsonld.to_json(table.common_props))
 
         cols = collections.OrderedDict([(col.header, col) for col in table.tableSchema.columns])
-        for col in cols.values():
-            col.propertyUrl = col.inherit('propertyUrl')
-            col.valueUrl = col.inherit('valueUrl')
-
         row = [
             self._row_to_json(table, cols, row, rownum, rowsourcenum)
             for rownum, (_, rowsourcenum, row) in enumerate(
-- 
2.43.0


From f7029351cc6251b59a10b1ad6aefb10277d3569e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:33 +0000
Subject: [PATCH 44/49] fix: keep objects without identifier when framing

---
 src/csvw/jsonld.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/csvw/jsonld.py b/src/csvw/jsonld.py
index b021dc5..c3d68b3 100644
--- a/src/csvw/jsonld.py
+++ b/src/csvw/jsonld.py
@@ -95,10 +95,8 @@ def frame(data: list) -> list:
     .. see:: https://w3c.github.io/json-ld-framing/#introduction
     """
     items, refs, parents = collections.OrderedDict(), {}, {}
-    for item in data:
-        itemid = item.get('@id')
-        if itemid:
-            items[itemid] = item
+    for index, item in enumerate(data):
+        items[item.get('@id') or index] = item
         for vs in item.values():
             for v in [vs] if not isinstance(vs, list) else vs:
                 if isinstance(v, dict):
-- 
2.43.0


From e756edcbce79f81bb002066f66969cf79e5c9116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:04 +0000
Subject: [PATCH 45/49] fix: record all warnings when validating, whatever
 warning filters are set

---
 src/csvw/metadata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 6dbb9d8..366adf5 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1696,6 +1696,7 @@ class CSVW:
         with contextlib.ExitStack() as stack:
             if validate:
                 w = stack.enter_context(warnings.catch_warnings(record=True))
+                warnings.simplefilter('always')
 
             no_header = False
             try:
@@ -1752,6 +1753,7 @@ class CSVW:
         if self.warnings:
             return False
         with warnings.catch_warnings(record=True) as w:
+            warnings.simplefilter('always')
             for table in self.tables:
                 for _ in table.iterdicts(strict=False):
                     pass
-- 
2.43.0


From bfcd9a1b3039bd58d923820c263338177f4cd0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:04 +0000
Subject: [PATCH 46/49] fix: return False from is_valid if a check raises
 ValueError

---
 src/csvw/metadata.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 366adf5..6190808 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1754,13 +1754,16 @@ class CSVW:
             return False
         with warnings.catch_warnings(record=True) as w:
             warnings.simplefilter('always')
-            for table in self.tables:
-                for _ in table.iterdicts(strict=False):
-                    pass
-                if not table.check_primary_key():  # pragma: no cover
-                    warnings.warn('Duplicate primary key')
-            if not self.tablegroup.check_referential_integrity(strict=True):
-                warnings.warn('Referential integrity check failed')
+            try:
+                for table in self.tables:
+                    for _ in table.iterdicts(strict=False):
+                        pass
+                    if not table.check_primary_key():  # pragma: no cover
+                        warnings.warn('Duplicate primary key')
+                if not self.tablegroup.check_referential_integrity(strict=True):
+                    warnings.warn('Referential integrity check failed')
+            except ValueError as e:  # Invalid data is no reason to reject the metadata.
+                warnings.warn(str(e))
             if w:
                 self.warnings.extend(w)
         return not bool(self.warnings)
-- 
2.43.0


From ffea9d47fd1d218a6ba479c0daee61dc3b55a5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:55 +0000
Subject: [PATCH 47/49] fix: keep empty common properties, dialects, titles and
 primary keys when converting descriptions to JSON

---
 src/csvw/metadata.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 6190808..a6383b1 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -490,13 +490,13 @@ class DescriptionBase:
                 yield k, _asdict_multiple(v)
 
     def asdict(self, omit_defaults=True) -> dict:
-        # Note: The `null` property is the only inherited, list-valued property where the default
-        # is not the empty list. Thus, to allow setting it to empty, we must treat `null` as
-        # special case here.
+        # Note: Empty lists and objects are only omitted where leaving them out means the same. E.g.
+        # an empty `null`, `primaryKey` or `dialect` or an empty common property must be kept.
         # See also https://www.w3.org/TR/tabular-metadata/#dfn-inherited-property
+        defaults = dict(utils.attr_defaults(self.__class__), tableSchema={})
         return collections.OrderedDict(
             (k, v) for k, v in self._iter_dict_items(omit_defaults)
-            if (k == 'null' or (v not in ([], {}))))
+            if (v not in ([], {}) or defaults.get(k, DEFAULT) != v))
 
 
 def optional_int():
@@ -629,7 +629,7 @@ class Datatype(DescriptionBase):
         for attr_ in [
             'minimum', 'maximum', 'minInclusive', 'maxInclusive', 'minExclusive', 'maxExclusive'
         ]:
-            if attr_ in res:
+            if res.get(attr_) is not None:
                 res[attr_] = self.formatted(res[attr_])
         if len(res) == 1 and 'base' in res:
             return res['base']
-- 
2.43.0


From e7953d447ff2d762109e5c7e17beecc2fa28b21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:30 +0000
Subject: [PATCH 48/49] fix: do not modify the metadata passed in by the caller

---
 src/csvw/metadata.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index a6383b1..760d0e4 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -384,6 +384,7 @@ def valid_id_property(v):
 
 def valid_common_property(v):
     if isinstance(v, dict):
+        v = dict(v)  # The data of the caller must not be changed.
         if not {k[1:] for k in v if k.startswith('@')}.issubset(
                 {'id', 'language', 'type', 'value'}):
             raise ValueError(
@@ -546,8 +547,7 @@ class Datatype(DescriptionBase):
             return cls(base=v)
 
         if isinstance(v, dict):
-            v.setdefault('base', 'string')
-            return cls(**cls.partition_properties(v))
+            return cls(**cls.partition_properties({'base': 'string', **v}))
 
         if isinstance(v, cls):
             return v
@@ -1090,9 +1090,10 @@ class TableLike(Description):
         if self.tableSchema and not (isinstance(self.tableSchema, str)):
             self.tableSchema._parent = self
         if 'id' in self.at_props and self.at_props['id'] is None:
-            self.at_props['id'] = self.base
+            self.at_props = dict(self.at_props, id=self.base)
         ctx = self.at_props.get('context')
         if isinstance(ctx, list):
+            context = []
             for obj in ctx:
                 if (isinstance(obj, dict) and not set(obj.keys()).issubset({'@base', '@language'}))\
                         or (isinstance(obj, str) and obj != 'http://www.w3.org/ns/csvw'):
@@ -1105,7 +1106,9 @@ class TableLike(Description):
                 if isinstance(obj, dict) and '@language' in obj:
                     if not tags.check(obj['@language']):
                         warnings.warn('Invalid value for @language property')
-                        del obj['@language']
+                        obj = {k: v for k, v in obj.items() if k != '@language'}
+                context.append(obj)
+            self.at_props = dict(self.at_props, context=context)
 
     def get_column(self, spec):
         return self.tableSchema.get_column(spec) if self.tableSchema else None
@@ -1126,12 +1129,20 @@ class TableLike(Description):
         """
         Instantiate a CSVW Table or TableGroup description from a metadata file specified by URL.
         """
-        data = data or get_json(url)
+        data = dict(data or get_json(url))
         url = urlparse(url)
         data.setdefault('@base', urlunparse((url.scheme, url.netloc, url.path, '', '', '')))
-        for table in data.get('tables', [data]):
+
+        def resolved(table):
             if isinstance(table, dict) and isinstance(table.get('tableSchema'), str):
-                table['tableSchema'] = Link(table['tableSchema']).resolve(data['@base'])
+                return dict(
+                    table, tableSchema=Link(table['tableSchema']).resolve(data['@base']))
+            return table
+
+        if 'tables' not in data:
+            data = resolved(data)
+        elif isinstance(data['tables'], (list, tuple)):
+            data['tables'] = [resolved(table) for table in data['tables']]
         res = cls.fromvalue(data)
         return res
 
-- 
2.43.0


From a307b310774f3ac4606550d7e14c04085e3529bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:03 +0000
Subject: [PATCH 49/49] fix: keep required flags and boolean tokens of
 Frictionless fields, and convert patterns only to regular expressions

---
 src/csvw/frictionless.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/csvw/frictionless.py b/src/csvw/frictionless.py
index 3bd0200..fcf4cce 100644
--- a/src/csvw/frictionless.py
+++ b/src/csvw/frictionless.py
@@ -40,11 +40,12 @@ def convert_column_spec(spec):
             res['datatype']['base'] = spec['type']
             if spec['type'] == 'string' and spec.get('format'):
                 res['datatype']['dc:format'] = spec['format']
-            if spec['type'] == 'boolean' and spec.get('trueValues') and spec.get('falseValues'):
+            if spec['type'] == 'boolean' and (spec.get('trueValues') or spec.get('falseValues')):
                 res['datatype']['format'] = '{}|{}'.format(
-                    spec['trueValues'][0], spec['falseValues'][0])
+                    (spec.get('trueValues') or ['true'])[0],
+                    (spec.get('falseValues') or ['false'])[0])
             if spec['type'] in ['number', 'integer']:
-                if spec.get('bareNumber') is True:  # pragma: no cover
+                if spec.get('bareNumber') is False:  # pragma: no cover
                     raise NotImplementedError(
                         'bareNumber is not supported in CSVW. It may be possible to translate to '
                         'a number pattern, though. See '
@@ -70,13 +71,18 @@ def convert_column_spec(spec):
         res['propertyUrl'] = spec['rdfType']
 
     constraints = spec.get('constraints', {})
-    for prop in ['required', 'minLength', 'maxLength', 'minimum', 'maximum']:
+    if 'required' in constraints:
+        res['required'] = constraints['required']
+    for prop in ['minLength', 'maxLength', 'minimum', 'maximum']:
         if prop in constraints:
             res['datatype'][prop] = constraints[prop]
-        if ('pattern' in constraints) and ('format' not in res['datatype']):
-            res['datatype']['format'] = constraints['pattern']
-        # FIXME: we could transform the "enum" constraint for string into
-        # a regular expression in the "format" property.
+    # Note: The format of numbers, booleans and dates is not a regular expression in CSVW.
+    if 'pattern' in constraints and res['datatype']['base'] not in [
+        'number', 'integer', 'boolean', 'date', 'time', 'datetime',
+    ]:
+        res['datatype']['format'] = constraints['pattern']
+    # FIXME: we could transform the "enum" constraint for string into
+    # a regular expression in the "format" property.
     return res
 
 
@@ -90,7 +96,7 @@ def convert_foreignKey(rsc_name, fk, resource_map):
         columnReference=fk['fields'],
         reference=dict(
             columnReference=fk['reference']['fields'],
-            resource=resource_map[fk['reference']['resource'] or rsc_name],
+            resource=resource_map[fk['reference'].get('resource') or rsc_name],
         )
     )
 
@@ -162,7 +168,7 @@ class DataPackage:
             # already a parsed JSON object
             self.dir = pathlib.Path(directory or '.')
         elif isinstance(spec, pathlib.Path):
-            self.dir = directory or spec.parent
+            self.dir = pathlib.Path(directory or spec.parent)
             spec = json.loads(spec.read_text(encoding='utf8'))
         else:  # assume a JSON formatted string
             spec = json.loads(spec)
-- 
2.43.0

