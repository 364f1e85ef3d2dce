From ce5581e7fbb597c4f87aa121007445136debbe31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:38:14 +0000
Subject: [PATCH 01/96] fix: enforce minf/maxf limits when decoding Number
 values

---
 distribution/src/jadn/codec/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 3ae3763..07951c8 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -213,7 +213,7 @@ def _encode_number(ts: SymbolTableField, aval, codec: 'Codec'):
 def _decode_number(ts: SymbolTableField, sval, codec: 'Codec'):
     aval = _format_decode(ts, sval)
     _check_type(ts, aval, numbers.Real, isinstance(aval, bool))
-    return _check_range(ts, aval)
+    return _check_frange(ts, aval)
 
 
 def _encode_string(ts: SymbolTableField, aval, codec: 'Codec'):
-- 
2.43.0


From 6b0241389ed7af5e51176b8c8e288bdd93211bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:38:34 +0000
Subject: [PATCH 02/96] fix: untagged union tries the next alternative when one
 fails with TypeError

---
 distribution/src/jadn/codec/codec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 07951c8..e31865d 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -259,7 +259,7 @@ def _encode_choice(ts: SymbolTableField, val, codec: 'Codec'):
                 ct += 1
                 if combine == 'O':              # anyOf - done on success
                     break
-            except ValueError as e:
+            except (ValueError, TypeError) as e:
                 cf += 1
                 err.append(e)
                 continue
@@ -297,7 +297,7 @@ def _decode_choice(ts: SymbolTableField, val, codec: 'Codec'):  # Map Choice:  v
                 ct += 1
                 if combine == 'O':  # oneOf - done on success
                     break
-            except ValueError:
+            except (ValueError, TypeError):
                 cf += 1
                 continue
         td = ts.TypeDef
-- 
2.43.0


From b89aafb69535113d1767541d03b4ced5cabc314f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:38:40 +0000
Subject: [PATCH 03/96] fix: reject decoded value that matches no alternative
 of an anyOf union

---
 distribution/src/jadn/codec/codec.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index e31865d..8799168 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -306,6 +306,8 @@ def _decode_choice(ts: SymbolTableField, val, codec: 'Codec'):  # Map Choice:  v
             raise_error(f'{td.TypeName}(allOf): {cf}/{n} invalid')
         if combine == 'X' and ct != 1:
             raise_error(f'{td.TypeName}(oneOf): {ct}/{n} valid')
+        if combine == 'O' and cf >= n:
+            raise_error(f'{td.TypeName}(anyOf): {ct}/{n} none valid')
         return v
 
     _check_type(ts, val, dict)
-- 
2.43.0


From 08d5c24fac0063bd0363bf96d334d1f8ec6b4ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:39:22 +0000
Subject: [PATCH 04/96] fix: do not count unpopulated optional fields against
 size limits when decoding concise records

---
 distribution/src/jadn/codec/codec.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 8799168..7d604b1 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -357,7 +357,10 @@ def _encode_maprec(ts: SymbolTableField, aval, codec: 'Codec'):
 
 def _decode_maprec(ts: SymbolTableField, sval, codec: 'Codec'):
     _check_type(ts, sval, ts.EncType)
-    _check_size(ts, sval)   # TODO: _check_count() for concise records
+    if isinstance(sval, list):
+        _check_count(ts, sval)      # Concise record: unpopulated optional fields are not counted
+    else:
+        _check_size(ts, sval)
     val = sval
     if ts.EncType == dict:
         val = {_check_key(ts, k): v for k, v in sval.items()}
-- 
2.43.0


From 1ab05f2429eeafc8b1bfedb009212e2c0322f6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:39:26 +0000
Subject: [PATCH 05/96] fix: encode and decode Map types with the id option in
 verbose string modes

---
 distribution/src/jadn/codec/codec.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 7d604b1..a196971 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -322,12 +322,17 @@ def _decode_choice(ts: SymbolTableField, val, codec: 'Codec'):  # Map Choice:  v
     return {k: codec.decode(f.FieldType, v)}
 
 
+# Index of field identifier used as symbol table key: verbose (name) or minified / id option (tag)
+def _field_key(ts: SymbolTableField, codec: 'Codec') -> int:
+    return FieldName if codec.verbose_str and 'id' not in ts.TypeOpts else FieldID
+
+
 def _encode_maprec(ts: SymbolTableField, aval, codec: 'Codec'):
     _check_type(ts, aval, dict)
     _check_size(ts, aval)
     sval = ts.EncType()
     assert isinstance(sval, (list, dict))
-    fx = FieldName if codec.verbose_str else FieldID  # Verbose or minified identifier strings
+    fx = _field_key(ts, codec)
     fnames = [f.Def.FieldName for f in ts.Fld.values()]
     for f in ts.TypeDef.Fields:
         fs = ts.Fld[f[fx]]  # Symtab entry for field
@@ -365,7 +370,7 @@ def _decode_maprec(ts: SymbolTableField, sval, codec: 'Codec'):
     if ts.EncType == dict:
         val = {_check_key(ts, k): v for k, v in sval.items()}
     aval = dict()
-    fx = FieldName if codec.verbose_str else FieldID  # Verbose or minified identifier strings
+    fx = _field_key(ts, codec)
     fnames = list(ts.Fld)
     for f in ts.TypeDef.Fields:
         fs = ts.Fld[f[fx]]  # Symtab entry for field
-- 
2.43.0


From b2dff00a00ba9a5de12af5a54fe2604129ecda99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:39:31 +0000
Subject: [PATCH 06/96] fix: locate the tagid field by id in all encoding
 modes, report missing tag as an error

---
 distribution/src/jadn/codec/__init__.py |  2 +-
 distribution/src/jadn/codec/codec.py    | 19 +++++++++++++++----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/distribution/src/jadn/codec/__init__.py b/distribution/src/jadn/codec/__init__.py
index 629db22..43cdf26 100644
--- a/distribution/src/jadn/codec/__init__.py
+++ b/distribution/src/jadn/codec/__init__.py
@@ -79,7 +79,7 @@ class Codec:
             assert fopts['minc'] in (0, 1) and fopts['maxc'] == 1     # Other cardinalities have been simplified
             ctag: Optional[int] = None
             if 'tagid' in fopts:
-                ctag = fopts['tagid'] if fa == FieldID else fnames[fopts['tagid']]
+                ctag = fopts['tagid']
             return SymbolTableFieldDefinition(
                 fld,        # SF_DEF: JADN field definition
                 fopts,      # SF_OPT: Field options (dict)
diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index a196971..8e678ae 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -327,6 +327,11 @@ def _field_key(ts: SymbolTableField, codec: 'Codec') -> int:
     return FieldName if codec.verbose_str and 'id' not in ts.TypeOpts else FieldID
 
 
+# Field that contains the choice tag for another field (tagid option)
+def _tag_field(ts: SymbolTableField, ctag: int) -> GenFieldDefinition:
+    return next(f for f in ts.TypeDef.Fields if f.FieldID == ctag)
+
+
 def _encode_maprec(ts: SymbolTableField, aval, codec: 'Codec'):
     _check_type(ts, aval, dict)
     _check_size(ts, aval)
@@ -340,8 +345,11 @@ def _encode_maprec(ts: SymbolTableField, aval, codec: 'Codec'):
         fname = fd[FieldName]  # Field name
         fopts = fs.Opt  # Field options dict
         ctag = fs.cTag
-        if ctag is not None:  # Type of this field is specified by contents of another field
-            e = codec.encode(fd.FieldType, {aval[ctag]: aval[fname]})
+        if ctag is not None and fname in aval:  # Type of this field is specified by contents of another field
+            tf = _tag_field(ts, ctag)
+            if tf.FieldName not in aval:
+                _bad_value(ts, aval, tf)
+            e = codec.encode(fd.FieldType, {aval[tf.FieldName]: aval[fname]})
             sv = next(iter(e.values()))
         else:
             sv = codec.encode(fd.FieldType, aval[fname]) if fname in aval else None
@@ -385,8 +393,11 @@ def _decode_maprec(ts: SymbolTableField, sval, codec: 'Codec'):
         if sv is not None:
             ctag = fs.cTag
             if ctag is not None:  # Type of this field is specified by contents of another field
-                ct = ctag if isinstance(val, dict) else ts.eMap[ctag] - 1
-                av = codec.decode(fd.FieldType, {sval[ct]: sv})
+                tf = _tag_field(ts, ctag)
+                ct = tf[fx] if isinstance(val, dict) else tf.FieldID - 1
+                if isinstance(val, dict) and ct not in val:
+                    _bad_value(ts, val, tf)
+                av = codec.decode(fd.FieldType, {val[ct]: sv})
                 aval[fd[FieldName]] = next(iter(av.values()))
             else:
                 aval[fd[FieldName]] = codec.decode(fd.FieldType, sv)
-- 
2.43.0


From 667d38f0b8fe8aea991b247860901f5d60104299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:01 +0000
Subject: [PATCH 07/96] fix: report a missing positional tag field as
 ValueError instead of IndexError

---
 distribution/src/jadn/codec/codec.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 8e678ae..ed5739f 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -395,7 +395,7 @@ def _decode_maprec(ts: SymbolTableField, sval, codec: 'Codec'):
             if ctag is not None:  # Type of this field is specified by contents of another field
                 tf = _tag_field(ts, ctag)
                 ct = tf[fx] if isinstance(val, dict) else tf.FieldID - 1
-                if isinstance(val, dict) and ct not in val:
+                if ct not in val if isinstance(val, dict) else ct >= len(val):
                     _bad_value(ts, val, tf)
                 av = codec.decode(fd.FieldType, {val[ct]: sv})
                 aval[fd[FieldName]] = next(iter(av.values()))
@@ -424,6 +424,8 @@ def _encode_array(ts: SymbolTableField, aval, codec: 'Codec'):
         av = aval[fx] if len(aval) > fx else None
         if av is not None:
             if 'tagid' in fopts:
+                if len(aval) < int(fopts['tagid']):
+                    _bad_value(ts, aval, _tag_field(ts, int(fopts['tagid'])))
                 choice_type = aval[int(fopts['tagid']) - 1]
                 e = codec.encode(f.FieldType, {choice_type: av})
                 sv = e[next(iter(e))]
@@ -453,6 +455,8 @@ def _decode_array(ts: SymbolTableField, sval, codec: 'Codec'):  # Ordered list o
         sv = val[fx] if len(val) > fx else None
         if sv is not None:
             if 'tagid' in fopts:
+                if len(val) < int(fopts['tagid']):
+                    _bad_value(ts, val, _tag_field(ts, int(fopts['tagid'])))
                 choice_type = val[int(fopts['tagid']) - 1]
                 d = codec.decode(f.FieldType, {choice_type: sv})  # TODO: fix str/int handling of choice
                 av = d[next(iter(d))]
-- 
2.43.0


From d8d5c3bca92dc84af80242dba6c276f17118fd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:05 +0000
Subject: [PATCH 08/96] fix: serialize built-in Binary fields as base64url,
 convert formatted arrays from API values

---
 distribution/src/jadn/codec/__init__.py              |  7 +++----
 distribution/src/jadn/codec/codec.py                 |  8 ++++++--
 distribution/src/jadn/codec/format_serialize_json.py | 11 ++++++-----
 3 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/distribution/src/jadn/codec/__init__.py b/distribution/src/jadn/codec/__init__.py
index 43cdf26..ec253d0 100644
--- a/distribution/src/jadn/codec/__init__.py
+++ b/distribution/src/jadn/codec/__init__.py
@@ -149,10 +149,9 @@ class Codec:
                 Decode=enctab[t].Dec,
                 EncType=enctab[t].eType,
                 TypeOpts={},
-                # TODO: check if t[BaseType] should just be t
-                FormatValidate=get_format_validate_function(self.format_validate, t[BaseType], ''),
-                FormatEncode=get_format_encode_function(self.format_codec, t[BaseType], ''),
-                FormatDecode=get_format_decode_function(self.format_codec, t[BaseType], '')
+                FormatValidate=get_format_validate_function(self.format_validate, t, ''),
+                FormatEncode=get_format_encode_function(self.format_codec, t, ''),
+                FormatDecode=get_format_decode_function(self.format_codec, t, '')
             )
 
 
diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index ed5739f..445fa67 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -6,6 +6,7 @@ from dataclasses import dataclass
 from frozendict import frozendict
 from typing import Any, Callable, Dict, Optional, Union
 from ..utils import raise_error
+from .format_serialize_json import _format_pass
 from ..definitions import FieldID, FieldName, BasicDataclass, TypeDefinition, GenFieldDefinition
 # TODO: add DEFAULT to dataclasses
 
@@ -438,13 +439,16 @@ def _encode_array(ts: SymbolTableField, aval, codec: 'Codec'):
                 _bad_value(ts, aval, f)
     while sval and sval[-1] is None:            # Strip non-populated trailing optional values
         sval.pop()
-    return ts.FormatEncode(sval)
+    return sval if ts.FormatEncode is _format_pass else ts.FormatEncode(aval)
 
 
 def _decode_array(ts: SymbolTableField, sval, codec: 'Codec'):  # Ordered list of types, returned as a list
     val = ts.FormatDecode(sval)
+    if ts.FormatDecode is not _format_pass:     # Text representation: format decode returned API values
+        _encode_array(ts, val, codec)
+        return val
     _check_type(ts, val, list)
-    _check_count(ts, sval)
+    _check_count(ts, val)
     aval = list()
     if len(val) > len(ts.Fld):
         _extra_value(ts, val, set(aval[len(ts.Fld):]))
diff --git a/distribution/src/jadn/codec/format_serialize_json.py b/distribution/src/jadn/codec/format_serialize_json.py
index f19a743..266cd5e 100644
--- a/distribution/src/jadn/codec/format_serialize_json.py
+++ b/distribution/src/jadn/codec/format_serialize_json.py
@@ -147,13 +147,14 @@ def s2a_ipv6_net(sval: str) -> [str, int]:
     return [sa, prefix_len]
 
 
-def a2s_tag_uuid(aval: [str, str]) -> str:
-    return aval[0] + '-' + aval[1]
+def a2s_tag_uuid(aval: [str, bytes]) -> str:
+    return aval[0] + '-' + b2s_uuid(aval[1])
 
 
-def s2a_tag_uuid(sval: str) -> [str, str]:
-    t, u = sval.split('-', maxsplit=1)
-    return [t, u]
+def s2a_tag_uuid(sval: str) -> [str, bytes]:
+    if sval[-37:-36] != '-':        # UUID is the last 36 characters, tag may contain hyphens
+        raise ValueError
+    return [sval[:-37], s2b_uuid(sval[-36:])]
 
 
 FORMAT_CONVERT_MULTIPART_FUNCTIONS = {
-- 
2.43.0


From c7ce5c012a2e55e5c820fc5d1e7fd1de4241366c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:24 +0000
Subject: [PATCH 09/96] fix: apply configured maximum length to built-in String
 and Binary fields

---
 distribution/src/jadn/codec/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/__init__.py b/distribution/src/jadn/codec/__init__.py
index ec253d0..da0cc83 100644
--- a/distribution/src/jadn/codec/__init__.py
+++ b/distribution/src/jadn/codec/__init__.py
@@ -148,7 +148,7 @@ class Codec:
                 Encode=enctab[t].Enc,
                 Decode=enctab[t].Dec,
                 EncType=enctab[t].eType,
-                TypeOpts={},
+                TypeOpts={'minv': 0, 'maxv': self.config[f'$Max{t}']} if t in ('Binary', 'String') else {},
                 FormatValidate=get_format_validate_function(self.format_validate, t, ''),
                 FormatEncode=get_format_encode_function(self.format_codec, t, ''),
                 FormatDecode=get_format_decode_function(self.format_codec, t, '')
-- 
2.43.0


From 8155081cd89b76acb9135df81885b61c2bb2c7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:47 +0000
Subject: [PATCH 10/96] fix: unfold MapOf types whose key type is built-in

---
 distribution/src/jadn/transform/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index 6ce682c..3b1ee1b 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -170,7 +170,7 @@ def unfold_map_of_enum(schema: dict) -> NoReturn:
     typex = {t[TypeName]: n for n, t in enumerate(schema['types'])}       # Build type index
     for n, tdef in enumerate(schema['types']):
         to = topts_s2d(tdef.TypeOptions)
-        if tdef.BaseType == 'MapOf' and schema['types'][typex[to['ktype']]][BaseType] == 'Enumerated':
+        if tdef.BaseType == 'MapOf' and to['ktype'] in typex and schema['types'][typex[to['ktype']]][BaseType] == 'Enumerated':
             newfields = [GenFieldDefinition(f[ItemID], f[ItemValue], to['vtype'], [], f[ItemDesc]) for f in schema['types'][typex[to['ktype']]][Fields]]
             schema['types'][n] = TypeDefinition(tdef.TypeName, 'Map', [], tdef.TypeDesc, newfields)
 
-- 
2.43.0


From ea3cf181c2fd18c16499446b6c917f756d7966c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:52 +0000
Subject: [PATCH 11/96] fix: decode and validate MapOf keys

---
 distribution/src/jadn/codec/codec.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 445fa67..d2b5937 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -504,7 +504,16 @@ def _encode_map_of(ts: SymbolTableField, aval, codec: 'Codec'):
 def _decode_map_of(ts: SymbolTableField, sval, codec: 'Codec'):
     _check_type(ts, sval, dict)
     _check_size(ts, sval)
-    return {k: codec.decode(ts.TypeOpts['vtype'], v) for k, v in sval.items()}
+    to = ts.TypeOpts
+    return {_decode_map_key(to['ktype'], k, codec): codec.decode(to['vtype'], v) for k, v in sval.items()}
+
+
+def _decode_map_key(ktype: str, sval, codec: 'Codec'):
+    kts = codec.symtab.get(ktype)
+    if isinstance(sval, str) and kts and kts.EncType is int and re.match(r'^-?\d+$', sval):
+        if kts.FormatDecode is _format_pass:    # JSON object keys are always strings
+            sval = int(sval)
+    return codec.decode(ktype, sval)
 
 
 enctab: Dict[str, CodecTableField] = {  # decode, encode, min encoded type
-- 
2.43.0


From cdc2a34c77597322d4815bc59c5c02ffd6c1d94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:24 +0000
Subject: [PATCH 12/96] fix: unique and set ArrayOf no longer treat reordered
 or nested lists as duplicates

---
 distribution/src/jadn/codec/codec.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index d2b5937..31315e6 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -56,13 +56,13 @@ class CodecTableField(BasicDataclass):
     eType: type = None
 
 
+# Hashable representation of a value, used to detect duplicates. Order of list items is significant
 def fset(x):
     if isinstance(x, dict):
         return frozendict({k: fset(v) for k, v in x.items()})
-    try:
-        return frozenset(x) if isinstance(x, (tuple, list, set)) else x
-    except TypeError as e:
-        return frozenset((fset(v) for v in x))
+    if isinstance(x, (tuple, list)):
+        return tuple(fset(v) for v in x)
+    return frozenset(x) if isinstance(x, set) else x
 
 
 def _bad_index(ts: SymbolTableField, k: int, val: list) -> None:
@@ -480,7 +480,7 @@ def _encode_array_of(ts: SymbolTableField, val, codec: 'Codec'):
     _check_type(ts, val, list)
     _check_size(ts, val)
     if 'set' in ts.TypeOpts or 'unique' in ts.TypeOpts:
-        if len(val) != len(fset(val)):
+        if len(val) != len({fset(v) for v in val}):
             _bad_value(ts, val)
     return [codec.encode(ts.TypeOpts['vtype'], v) for v in val]
 
@@ -489,7 +489,7 @@ def _decode_array_of(ts: SymbolTableField, val, codec: 'Codec'):
     _check_type(ts, val, list)
     _check_size(ts, val)
     if 'set' in ts.TypeOpts or 'unique' in ts.TypeOpts:
-        if len(val) != len(fset(val)):
+        if len(val) != len({fset(v) for v in val}):
             _bad_value(ts, val)
     return [codec.decode(ts.TypeOpts['vtype'], v) for v in val]
 
-- 
2.43.0


From 0b04457ee5b9719a00d3ddcb9e19848967c4538d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:28 +0000
Subject: [PATCH 13/96] fix: reject boolean as Enumerated id, report values of
 types with no fields as errors

---
 distribution/src/jadn/codec/codec.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 31315e6..5367249 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -112,7 +112,7 @@ def _format_decode(ts: SymbolTableField, val: Any) -> Any:
 
 def _check_key(ts: SymbolTableField, val):
     try:
-        return int(val) if isinstance(next(iter(ts.dMap)), int) else val
+        return int(val) if isinstance(next(iter(ts.dMap), ''), int) else val
     except ValueError:
         raise_error(f'{ts.TypeDef.TypeName}: {val} is not a valid field ID')
 
@@ -233,7 +233,7 @@ def _decode_string(ts: SymbolTableField, sval, codec: 'Codec'):
 
 def _encode_enumerated(ts: SymbolTableField, aval, codec: 'Codec'):  # pylint: disable=R1710
     # TODO: Serialization
-    _check_type(ts, aval, type(next(iter(ts.eMap))))
+    _check_type(ts, aval, type(next(iter(ts.eMap), '')), isinstance(aval, bool))
     if aval in ts.eMap:
         return ts.eMap[aval]
     td = ts.TypeDef
@@ -241,7 +241,7 @@ def _encode_enumerated(ts: SymbolTableField, aval, codec: 'Codec'):  # pylint: d
 
 
 def _decode_enumerated(ts: SymbolTableField, sval, codec: 'Codec'):  # pylint: disable=R1710
-    _check_type(ts, sval, type(next(iter(ts.dMap))))
+    _check_type(ts, sval, type(next(iter(ts.dMap), '')), isinstance(sval, bool))
     if sval in ts.dMap:
         return ts.dMap[sval]
     td = ts.TypeDef
-- 
2.43.0


From 2891ff1aa38607ab635c8339977fbfd363de9873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:14 +0000
Subject: [PATCH 14/96] fix: reject non-text serialized value of a text format
 with ValueError

---
 distribution/src/jadn/codec/codec.py           | 8 ++++++--
 distribution/src/jadn/codec/format_validate.py | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 5367249..4c31495 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -102,6 +102,8 @@ def _format_encode(ts: SymbolTableField, val: Any) -> Any:
 
 
 def _format_decode(ts: SymbolTableField, val: Any) -> Any:
+    if ts.FormatDecode is not _format_pass:     # Formats with a text representation
+        _check_type(ts, val, str)
     aval = ts.FormatDecode(val)
     try:
         ts.FormatValidate(aval)
@@ -443,8 +445,10 @@ def _encode_array(ts: SymbolTableField, aval, codec: 'Codec'):
 
 
 def _decode_array(ts: SymbolTableField, sval, codec: 'Codec'):  # Ordered list of types, returned as a list
-    val = ts.FormatDecode(sval)
-    if ts.FormatDecode is not _format_pass:     # Text representation: format decode returned API values
+    val = sval
+    if ts.FormatDecode is not _format_pass:     # Text representation: format decode returns API values
+        _check_type(ts, sval, str)
+        val = ts.FormatDecode(sval)
         _encode_array(ts, val, codec)
         return val
     _check_type(ts, val, list)
diff --git a/distribution/src/jadn/codec/format_validate.py b/distribution/src/jadn/codec/format_validate.py
index 8bacf45..1ed3c53 100644
--- a/distribution/src/jadn/codec/format_validate.py
+++ b/distribution/src/jadn/codec/format_validate.py
@@ -46,7 +46,7 @@ def s_hostname(sval: str) -> str:
     if not isinstance(sval, type('')):
         raise TypeError
     hostname = sval[:]      # Copy since we're modifying input
-    if hostname[-1] == ".":
+    if hostname[-1:] == ".":
         hostname = hostname[:-1]  # strip exactly one dot from the right, if present
     if len(sval) > 253:
         raise ValueError
-- 
2.43.0


From 203500169bddeea9e80dcf69102c0b62807a7670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:19 +0000
Subject: [PATCH 15/96] fix: datetime-ms conversion is exact to the
 millisecond, out of range values are ValueError

---
 .../src/jadn/codec/format_serialize_json.py      | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/distribution/src/jadn/codec/format_serialize_json.py b/distribution/src/jadn/codec/format_serialize_json.py
index 266cd5e..430db9d 100644
--- a/distribution/src/jadn/codec/format_serialize_json.py
+++ b/distribution/src/jadn/codec/format_serialize_json.py
@@ -3,7 +3,7 @@ import binascii
 import re
 import string
 
-from datetime import datetime, timezone
+from datetime import datetime, timedelta, timezone
 from ipaddress import IPv4Address, IPv6Address
 from typing import Any, Callable, Dict, Tuple
 from ..definitions import FORMAT_SERIALIZE
@@ -164,8 +164,14 @@ FORMAT_CONVERT_MULTIPART_FUNCTIONS = {
 }
 
 
-def int2datems(dt: int) -> str:
-    y = datetime.isoformat(datetime.fromtimestamp(dt/1000., timezone.utc))
+EPOCH = datetime.fromtimestamp(0, timezone.utc)
+
+
+def int2datems(dt: int) -> str:     # Use integer arithmetic, floating point loses milliseconds
+    try:
+        y = datetime.isoformat(EPOCH + timedelta(milliseconds=dt))
+    except OverflowError as e:
+        raise ValueError(e)
     if m := re.match(r'^(.+)(\.\d\d\d)(\d\d\d)(.+)$', y):   # strip microseconds to milliseconds
         y = m.group(1) + m.group(2) + m.group(4)
     return y
@@ -173,7 +179,9 @@ def int2datems(dt: int) -> str:
 
 def datems2int(dts: str) -> int:
     x = datetime.fromisoformat(dts.upper().replace('Z', '+00:00').replace(' ', 'T'))
-    return int(1000 * datetime.timestamp(x))
+    if x.tzinfo is None:            # RFC 3339 requires time offset
+        raise ValueError
+    return (x - EPOCH) // timedelta(milliseconds=1)
 
 
 # No special sized integer serialization in JSON.  Define these for packed encoding.
-- 
2.43.0


From 7157e7677d4bd19b9059ca4bb1e6f62b5e3fcbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:25 +0000
Subject: [PATCH 16/96] fix: email format must match the entire string,
 ignoring case

---
 distribution/src/jadn/codec/format_validate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/format_validate.py b/distribution/src/jadn/codec/format_validate.py
index 1ed3c53..c6bc692 100644
--- a/distribution/src/jadn/codec/format_validate.py
+++ b/distribution/src/jadn/codec/format_validate.py
@@ -36,7 +36,7 @@ def s_email(sval: str) -> str:
         r"(?:(?:[a-z0-9](?:[a-z0-9-]*[a-z0-9])?\.)+[a-z0-9](?:[a-z0-9-]*[a-z0-9])?|\[(?:(?:(2(5[0-5]|[0-4][0-9])"
         r"|1[0-9][0-9]|[1-9]?[0-9]))\.){3}(?:(2(5[0-5]|[0-4][0-9])|1[0-9][0-9]|[1-9]?[0-9])|[a-z0-9-]*[a-z0-9]"
         r":(?:[\x01-\x08\x0b\x0c\x0e-\x1f\x21-\x5a\x53-\x7f]|\\[\x01-\x09\x0b\x0c\x0e-\x7f])+)\])")
-    if re.match(rfc5322_re, sval):
+    if re.fullmatch(rfc5322_re, sval, re.IGNORECASE | re.ASCII):
         return sval
     raise ValueError
 
-- 
2.43.0


From f37cb52da8ac9d7d5ac1f60a0590fc7b19500014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:54 +0000
Subject: [PATCH 17/96] fix: hostname format rejects trailing newline and
 non-ASCII characters

---
 distribution/src/jadn/codec/format_validate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/codec/format_validate.py b/distribution/src/jadn/codec/format_validate.py
index c6bc692..c51c270 100644
--- a/distribution/src/jadn/codec/format_validate.py
+++ b/distribution/src/jadn/codec/format_validate.py
@@ -50,8 +50,8 @@ def s_hostname(sval: str) -> str:
         hostname = hostname[:-1]  # strip exactly one dot from the right, if present
     if len(sval) > 253:
         raise ValueError
-    allowed = re.compile(r"(?!-)[A-Z\d-]{1,63}(?<!-)$", re.IGNORECASE)
-    if all(allowed.match(x) for x in hostname.split(".")):
+    allowed = re.compile(r"(?!-)[A-Z\d-]{1,63}(?<!-)$", re.IGNORECASE | re.ASCII)
+    if all(allowed.fullmatch(x) for x in hostname.split(".")):
         return sval
     raise ValueError
 
-- 
2.43.0


From 4da7dc2dad36e10aec72f3aa9bf215f9c7217273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:21 +0000
Subject: [PATCH 18/96] fix: pointer enumeration of nested dir fields uses the
 full path

---
 distribution/src/jadn/transform/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index 3b1ee1b..e37a5a8 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -139,7 +139,7 @@ def unfold_derived_enum(schema: dict, sys: str) -> NoReturn:
                 for f in tdef.Fields:
                     if OPTION_ID['dir'] in f.FieldOptions:
                         if f.FieldType in typex:
-                            yield from pathnames(f.FieldType, f'{f.FieldName}/')
+                            yield from pathnames(f.FieldType, f'{base}{f.FieldName}/')
                     else:
                         yield [base + f.FieldName, f.FieldDesc]
         return [[n+1] + f for n, f in enumerate(pathnames(rtype))]
-- 
2.43.0


From f51725c0f63204d48261d347fc83d0aa3f221447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:26 +0000
Subject: [PATCH 19/96] fix: unfold creates one Enumerated type per derived
 enum instead of duplicates

---
 distribution/src/jadn/transform/transform.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index e37a5a8..cedeafd 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -123,6 +123,7 @@ def unfold_derived_enum(schema: dict, sys: str) -> NoReturn:
                 else:                   # Make new Enumerated type
                     make_items = enum_items if opts[n][1:2] == OPTION_ID['enum'] else pointer_items
                     opts[n] = f'{opts[n][:1]}{name}'
+                    enums.update({name: name})
                     schema['types'].append(TypeDefinition(name, 'Enumerated', [], '', [EnumFieldDefinition(*f) for f in make_items(name.rsplit(sys, maxsplit=1)[0])]))
 
     def enum_items(rtype: str) -> list:
-- 
2.43.0


From b611837284a45ce4caa8d0f972f3677082666785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:32 +0000
Subject: [PATCH 20/96] fix: derived enums that differ only in the id option
 are separate types regardless of option order

---
 distribution/src/jadn/transform/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index cedeafd..b5e8331 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -65,7 +65,7 @@ def epname(topts: List[OPTION_TYPES], sys: str) -> Union[str, None]:
     if x is None:
         return None
     oname = 'Enum' if topts[x][0] == OPTION_ID['enum'] else 'Pointer'
-    return f"{topts[x][1:]}{sys}{oname}{'-Id' if get_optx(topts, 'id') else ''}"
+    return f"{topts[x][1:]}{sys}{oname}{'-Id' if get_optx(topts, 'id') is not None else ''}"
 
 
 # Replace field multiplicity with explicit ArrayOf type definitions
-- 
2.43.0


From 85bc94f40a07eacd41e63fb9f71b295535d3bce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:36 +0000
Subject: [PATCH 21/96] fix: unfold enumerations that refer to another derived
 enumeration

---
 distribution/src/jadn/transform/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index b5e8331..9fee8a0 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -153,7 +153,7 @@ def unfold_derived_enum(schema: dict, sys: str) -> NoReturn:
                 optx = get_optx(to, 'enum')
                 optx = optx if optx is not None else get_optx(to, 'pointer')
                 items = enum_items if to[optx][:1] == OPTION_ID['enum'] else pointer_items
-                tdef.Fields = items(to[optx][1:])
+                tdef.Fields = [EnumFieldDefinition(*f) for f in items(to[optx][1:])]
                 del to[optx]
                 enums.update({rname: tdef.TypeName})
 
-- 
2.43.0


From 769e65639877a60cbd0fa39ff04e43b35b5afcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:41 +0000
Subject: [PATCH 22/96] fix: unfolding multiplicity keeps the type options of a
 repeated field

---
 distribution/src/jadn/transform/transform.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index 9fee8a0..5f06949 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -76,8 +76,14 @@ def unfold_multiplicity(schema: dict, sys: str) -> NoReturn:
                 fo, fto = ftopts_s2d(fdef.FieldOptions)
                 if 'maxc' in fo and fo['maxc'] != 1:
                     minc = fo.get('minc', 1)
+                    vtype = fdef.FieldType
+                    if elem := [o for o in fto if o != 'unique']:   # Type options apply to each value of the field
+                        elopts = [fdef.FieldOptions.pop(get_optx(fdef.FieldOptions, o)) for o in elem]
+                        vtype = epname(elopts, sys) or f'{tdef.TypeName}{sys}{fdef.FieldName}{sys}Item'
+                        if vtype not in [t.TypeName for t in schema['types']]:
+                            schema['types'].append(TypeDefinition(vtype, fdef.FieldType, elopts, fdef.FieldDesc))
                     newopts = {
-                        'vtype': fdef.FieldType,
+                        'vtype': vtype,
                         'minv': max(minc, 1),  # Don't allow empty ArrayOf
                         **({'maxv': fo['maxc']} if fo['maxc'] > 1 else {}),  # maxv defaults to 0
                         **({'unique': True} if 'unique' in fto else {})  # Move unique option to ArrayOf
-- 
2.43.0


From fc75e3e6102080da3d4e17ce945aa06a16abba7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:41 +0000
Subject: [PATCH 23/96] fix: dependency on a derived enumeration is a
 dependency on the enumerated type

---
 distribution/src/jadn/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index dd9c801..85e0596 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -96,9 +96,9 @@ def build_deps(schema: dict[str, list]) -> dict[str, list[str]]:
     def get_refs(tdef: list) -> list[str]:  # Return all type references from a type definition
         # Options whose value is/has a type name: strip option id
         oids = [OPTION_ID['ktype'], OPTION_ID['vtype']]
-        # Options that enumerate fields: keep option id
+        # Options that enumerate fields: strip option id
         oids2 = [OPTION_ID['enum'], OPTION_ID['pointer']]
-        refs = [to[1:] for to in tdef[TypeOptions] if to[0] in oids and not is_builtin(to[1:])]
+        refs = [to[1:].lstrip(''.join(oids2)) for to in tdef[TypeOptions] if to[0] in oids and not is_builtin(to[1:])]
         refs += ([to[1:] for to in tdef[TypeOptions] if to[0] in oids2])
         if has_fields(tdef[BaseType]):  # Ignore Enumerated
             for f in tdef[Fields]:
-- 
2.43.0


From 4ec06916bddb9a5f2fbd2a4977d8c25c6f58ce94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:04 +0000
Subject: [PATCH 24/96] fix: topological sort lists shared dependencies after
 all of their parents

---
 distribution/src/jadn/utils.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index 85e0596..fd0d0be 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -121,14 +121,16 @@ def topo_sort(deps: dict[str, list[str]], roots: list[str]) -> list[str]:
     Returns the sorted list of items.
     """
     out: list[str] = []
+    visited: set[str] = set()
 
-    def walk_tree(it: str) -> None:
-        if it not in out:
-            out.append(it)
-            for i in deps.get(it, []):
+    def walk_tree(it: str) -> None:     # Put each item in front of all of its dependencies
+        if it not in visited:
+            visited.add(it)
+            for i in reversed(deps.get(it, [])):
                 walk_tree(i)
+            out.insert(0, it)
 
-    for item in roots:
+    for item in reversed(list(roots)):
         walk_tree(item)
     out = out if out else list(deps)     # if cycle detected, don't sort
     return out
-- 
2.43.0


From 3e22be9acb85586a764078e7d43358bc30ba3d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:27 +0000
Subject: [PATCH 25/96] fix: resolve_imports fails on removed 'and' option,
 list references, v1.1 namespaces and roots

---
 distribution/src/jadn/transform/resolve.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/distribution/src/jadn/transform/resolve.py b/distribution/src/jadn/transform/resolve.py
index 064f68b..85bee58 100644
--- a/distribution/src/jadn/transform/resolve.py
+++ b/distribution/src/jadn/transform/resolve.py
@@ -33,7 +33,7 @@ class SchemaPackage:
         except KeyError:
             raise_error(f'Schema package {self.source} must have a package ID')
 
-        self.namespaces = self.schema['info']['namespaces'] if 'namespaces' in self.schema['info'] else {}
+        self.namespaces = dict(self.schema['info'].get('namespaces', {}))     # {prefix: ns} or [[prefix, ns], ...]
         self.clear()
 
     def load(self) -> None:     # Validate schema, build type dependencies and external references
@@ -49,7 +49,7 @@ class SchemaPackage:
                     self.deps[tn].remove(dn)
                     nsid, typename = dn.split(':', maxsplit=1)
                     try:
-                        self.refs[self.namespaces[nsid]][tn].add(typename)
+                        self.refs[self.namespaces[nsid]][tn].append(typename)
                     except KeyError as e:
                         raise_error(f'Resolve: no namespace defined for {e}')
 
@@ -71,6 +71,8 @@ def merge_tname(tref: str, package: str, namespaces: dict[str, str], nsids: dict
     :param sys: single character system generated type delimiter
     :return: Local type name, qualified (TypeName$nsid) or unqualified (TypeName)
     """
+    if tref[0] in (OPTION_ID['enum'], OPTION_ID['pointer']):        # Derived enum used as ktype or vtype
+        return tref[0] + merge_tname(tref[1:], package, namespaces, nsids, sys)
     nsid, tname = tref.split(':', maxsplit=1) if ':' in tref else ('', tref)
     ns_id = nsids[namespaces[nsid] if nsid else package][0]
     return f'{tname}{sys}{ns_id}' if ns_id and not is_builtin(tname) else tname
@@ -78,7 +80,7 @@ def merge_tname(tref: str, package: str, namespaces: dict[str, str], nsids: dict
 
 def merge_typedef(tdef: list, package: str, namespaces: dict[str, str], nsids: dict, sys: str = '$') -> list:
     # Options whose value is/has a type name
-    oids = [OPTION_ID['ktype'], OPTION_ID['vtype'], OPTION_ID['enum'], OPTION_ID['pointer'], OPTION_ID['and']]
+    oids = [OPTION_ID['ktype'], OPTION_ID['vtype'], OPTION_ID['enum'], OPTION_ID['pointer']]
 
     def update_opts(opts: list[str]) -> list[str]:
         return [f'{x[0]}{merge_tname(x[1:], package, namespaces, nsids, sys)}' if x[0] in oids else x for x in opts]
@@ -155,7 +157,8 @@ def resolve_imports(schema: dict, dirname: str, no_nsid: tuple[str, ...] = ()):
             print(f'* Duplicate package {sm.package}, Using: {packages[sm.package].source}, Ignoring: {fn}')
         for i, m in sm.namespaces.items():
             nsids[m].append('' if i in no_nsid else i)
-    resolve(root, root.schema['info']['exports'] if 'exports' in root.schema['info'] else set(), packages)
+    info = root.schema['info']
+    resolve(root, set(info.get('roots', info.get('exports', []))), packages)
 
     for t in root.used.copy():
         if t[0] in (OPTION_ID['enum'], OPTION_ID['pointer']):
-- 
2.43.0


From 8ded86e7a667820072e2864ff2c424d821f29723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:32 +0000
Subject: [PATCH 26/96] fix: resolve_imports gives types from different
 packages different names

---
 distribution/src/jadn/transform/resolve.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/transform/resolve.py b/distribution/src/jadn/transform/resolve.py
index 85bee58..e6693cc 100644
--- a/distribution/src/jadn/transform/resolve.py
+++ b/distribution/src/jadn/transform/resolve.py
@@ -71,7 +71,7 @@ def merge_tname(tref: str, package: str, namespaces: dict[str, str], nsids: dict
     :param sys: single character system generated type delimiter
     :return: Local type name, qualified (TypeName$nsid) or unqualified (TypeName)
     """
-    if tref[0] in (OPTION_ID['enum'], OPTION_ID['pointer']):        # Derived enum used as ktype or vtype
+    if tref[:1] in (OPTION_ID['enum'], OPTION_ID['pointer']):        # Derived enum used as ktype or vtype
         return tref[0] + merge_tname(tref[1:], package, namespaces, nsids, sys)
     nsid, tname = tref.split(':', maxsplit=1) if ':' in tref else ('', tref)
     ns_id = nsids[namespaces[nsid] if nsid else package][0]
@@ -145,8 +145,10 @@ def resolve_imports(schema: dict, dirname: str, no_nsid: tuple[str, ...] = ()):
     root = SchemaPackage(schema)
     packages = {root.package: root}
     nsids = defaultdict(list)
+    for i, m in root.namespaces.items():        # Prefer namespace ids assigned by the root package
+        nsids[m].append('' if i in no_nsid else i)
 
-    for fn in (os.path.join(dirname, f) for f in os.listdir(dirname) if os.path.splitext(f)[1] in ('.jadn', '.jidl')):
+    for fn in (os.path.join(dirname, f) for f in sorted(os.listdir(dirname)) if os.path.splitext(f)[1] in ('.jadn', '.jidl')):
         with open(fn, 'r', encoding='utf-8') as fp:
             sm = SchemaPackage(fp)
         if sm.package not in packages:            # Add new package to list
@@ -166,6 +168,15 @@ def resolve_imports(schema: dict, dirname: str, no_nsid: tuple[str, ...] = ()):
                 raise_error(f'Resolve: no base type for {t}')
             root.used.remove(t)     # Don't need explicit type if base type is present
 
+    # Use a different namespace id if packages assign the same id to different namespaces
+    nsid_used = set()
+    for m, ids in nsids.items():
+        nsid = next((i for i in ids if i == '' or i not in nsid_used), None)
+        if nsid is None:
+            nsid = next(i for i in (f'{ids[0]}{n}' for n in range(2, len(nsids) + 3)) if i not in nsid_used)
+        nsid_used.add(nsid)
+        nsids[m] = [nsid]
+
     # Copy all needed types from other packages into root
     nsids[root.package] = ['']
     sc = {'info': {k: v for k, v in root.schema['info'].items() if k != 'namespaces'}, 'types': []}    # Remove namespaces
-- 
2.43.0


From 1428dc008a70168f4ef1a7f635971b9941c4defd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:24 +0000
Subject: [PATCH 27/96] fix: option and information order does not depend on
 string hash seed

---
 distribution/src/jadn/convert/html.py     | 2 +-
 distribution/src/jadn/convert/jidl.py     | 2 +-
 distribution/src/jadn/convert/markdown.py | 2 +-
 distribution/src/jadn/utils.py            | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/distribution/src/jadn/convert/html.py b/distribution/src/jadn/convert/html.py
index 6079f49..2172519 100644
--- a/distribution/src/jadn/convert/html.py
+++ b/distribution/src/jadn/convert/html.py
@@ -66,7 +66,7 @@ def html_dumps(schema: dict) -> str:
         if info := schema.get('info', None):
             with tag('div', klass='tBody'):
                 mlist = [k for k in INFO_ORDER if k in info]
-                for k in mlist + list({*info} - {*mlist}):
+                for k in mlist + [k for k in info if k not in mlist]:
                     with tag('div', klass='tRow'):
                         tag('div', f'{k}:', klass='tCell jKey')
                         tag('div', json.dumps(info[k]), klass='tCell jVal')
diff --git a/distribution/src/jadn/convert/jidl.py b/distribution/src/jadn/convert/jidl.py
index 1c31e6c..ef4b9a4 100644
--- a/distribution/src/jadn/convert/jidl.py
+++ b/distribution/src/jadn/convert/jidl.py
@@ -51,7 +51,7 @@ def jidl_dumps(schema: dict, style: dict = None) -> str:
     text = ''
     info = schema['info'] if 'info' in schema else {}
     mlist = [k for k in INFO_ORDER if k in info]
-    for k in mlist + list(set(info) - set(mlist)):              # Display info elements in fixed order
+    for k in mlist + [k for k in info if k not in mlist]:              # Display info elements in fixed order
         text += f'{k:>{w["info"]}}: {json.dumps(info[k])}\n'    # TODO: wrap to page width, continuation-line parser
 
     wt = w['desc'] if w['desc'] else w['id'] + w['name'] + w['type']
diff --git a/distribution/src/jadn/convert/markdown.py b/distribution/src/jadn/convert/markdown.py
index 4958bd1..9ad743a 100644
--- a/distribution/src/jadn/convert/markdown.py
+++ b/distribution/src/jadn/convert/markdown.py
@@ -46,7 +46,7 @@ def markdown_dumps(schema: dict, style: dict = None) -> str:
     text = ''
     info = schema['info'] if 'info' in schema else {}
     mlist = [k for k in INFO_ORDER if k in info]
-    for k in mlist + list(set(info) - set(mlist)):      # Display info elements in fixed order
+    for k in mlist + [k for k in info if k not in mlist]:      # Display info elements in fixed order
         text += f'{k:>14}: {json.dumps(info[k])}\n'     # TODO: wrap to width, continuation-line parser
 
     for td in schema['types']:
diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index fd0d0be..3de5f85 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -152,8 +152,8 @@ def topts_s2d(olist: Union[list[OPTION_TYPES], tuple[OPTION_TYPES, ...]], frange
     Convert list of type definition option strings to options dictionary
     """
     assert isinstance(olist, (list, tuple)), f'{olist} is not a list'
-    topts = {o for o in olist if ord(o[0]) in TYPE_OPTIONS}
-    if uopts := {*olist} - topts:
+    topts = [o for o in olist if ord(o[0]) in TYPE_OPTIONS]     # Keep input order
+    if uopts := [o for o in olist if o not in topts]:
         raise_error(f"Unknown type options: {','.join(uopts)}")
     opts = {}
     for o in topts:
-- 
2.43.0


From a319a276bc59ddbfcc3b1545e19abf5edf7258ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:30 +0000
Subject: [PATCH 28/96] fix: tagid in the last type of a JIDL or HTML document
 is converted to a field id

---
 distribution/src/jadn/convert/html.py | 1 +
 distribution/src/jadn/convert/jidl.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/distribution/src/jadn/convert/html.py b/distribution/src/jadn/convert/html.py
index 2172519..76acac7 100644
--- a/distribution/src/jadn/convert/html.py
+++ b/distribution/src/jadn/convert/html.py
@@ -171,6 +171,7 @@ def html_loads(hdoc: str) -> dict:
             elif t == 'T':
                 types.append(v)
                 fields = types[-1][Fields]
+    cleanup_tagid(fields or [])
     return check({'info': meta, 'types': types} if meta else {'types': types})
 
 
diff --git a/distribution/src/jadn/convert/jidl.py b/distribution/src/jadn/convert/jidl.py
index ef4b9a4..d0f3e76 100644
--- a/distribution/src/jadn/convert/jidl.py
+++ b/distribution/src/jadn/convert/jidl.py
@@ -139,6 +139,7 @@ def jidl_loads(doc: str) -> dict:
             elif t == 'T':
                 types.append(v)
                 fields = types[-1][Fields]
+    cleanup_tagid(fields or [])
     return check({'info': info, 'types': types} if info else {'types': types})
 
 
-- 
2.43.0


From 8df9bf4154459b2edf74aaf933bbf37268d9f98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:34 +0000
Subject: [PATCH 29/96] fix: load_any reads HTML schema files

---
 distribution/src/jadn/convert/html.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/distribution/src/jadn/convert/html.py b/distribution/src/jadn/convert/html.py
index 76acac7..b5ef078 100644
--- a/distribution/src/jadn/convert/html.py
+++ b/distribution/src/jadn/convert/html.py
@@ -2,7 +2,7 @@ import re
 import json
 
 from datetime import datetime
-from typing import Generator, Tuple, Union
+from typing import Generator, TextIO, Tuple, Union
 from lxml import html
 from .utils import DocHTML
 from ..definitions import Fields, ItemID, ItemDesc, FieldID, INFO_ORDER, TypeDefinition
@@ -175,8 +175,10 @@ def html_loads(hdoc: str) -> dict:
     return check({'info': meta, 'types': types} if meta else {'types': types})
 
 
-def html_load(fname: Union[bytes, str, int]) -> dict:
-    with open(fname, 'r') as f:
+def html_load(fname: Union[bytes, str, int, TextIO]) -> dict:
+    if hasattr(fname, 'read'):
+        return html_loads(fname.read())
+    with open(fname, 'r', encoding='utf8') as f:
         return html_loads(f.read())
 
 
-- 
2.43.0


From 0e73d7c09c7ff34e1b0150b6e8660f691fee152b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:39 +0000
Subject: [PATCH 30/96] fix: canonicalize does not corrupt Number limits with
 an exponent

---
 distribution/src/jadn/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index 3de5f85..74fb642 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -215,10 +215,10 @@ def canonicalize(schema: dict) -> dict:
             del_opt(olist, 'maxc')
         if basetype == 'Number':           # TODO: fix corner case input = 2.000
             minf = get_optx(olist, 'minf')
-            if minf is not None and '.' not in olist[minf]:
+            if minf is not None and olist[minf][1:].lstrip('-').isdigit():
                 olist[minf] += '.0'
             maxf = get_optx(olist, 'maxf')
-            if maxf is not None and '.' not in olist[maxf]:
+            if maxf is not None and olist[maxf][1:].lstrip('-').isdigit():
                 olist[maxf] += '.0'
 
     cschema = copy.deepcopy(schema)     # don't modify original
-- 
2.43.0


From bb19a662a4b5c73ecfb3c123f42884ce627fb9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:50 +0000
Subject: [PATCH 31/96] fix: JIDL descriptions may contain quoted text

---
 distribution/src/jadn/convert/jidl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/convert/jidl.py b/distribution/src/jadn/convert/jidl.py
index d0f3e76..f1c3d17 100644
--- a/distribution/src/jadn/convert/jidl.py
+++ b/distribution/src/jadn/convert/jidl.py
@@ -91,8 +91,8 @@ def line2jadn(line: str, tdef: list) -> tuple[str, list]:
         if m := re.match(p_info, line):
             return 'I', [m.group(1), m.group(2)]
 
-        q = re.search(r'"(?:[^"\\]|\\.)+"', line)  # Find quoted string (String pattern option)
-        s = q.end() if q else 0
+        q = re.search(r'\{pattern="(?:[^"\\]|\\.|"(?!\}))+"\}', line)  # Find String pattern option, but not in a description
+        s = q.end() if q and ' //' not in line[:q.start()] else 0
         desc = ''
         if d := re.search(r' //', line[s:]):
             desc = line[s + d.end():].strip()
-- 
2.43.0


From dec09f31934e5ad51a7c7d2fc84b34bf365c0062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:54 +0000
Subject: [PATCH 32/96] fix: text within a String pattern is not parsed as
 format or keyword options

---
 distribution/src/jadn/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index 74fb642..5a14415 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -295,6 +295,7 @@ def typestr2jadn(typestring: str) -> tuple[str, list[str], list]:
                     topts.update({} if b == '*' else {'maxv': int(b)})
             else:
                 raise_error(f'unrecognized arg "{opt}", expected pattern or range')
+        rest = re.sub(p_rangepat, '', rest)     # Don't look for keywords in pattern
         for opt in re.findall(p_format, rest):
             topts.update({'format': opt})
         for opt in re.findall(p_kw, rest):
-- 
2.43.0


From 3adde4cb240c63307955660428489c6292334fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:59 +0000
Subject: [PATCH 33/96] fix: type definition string includes the extend option

---
 distribution/src/jadn/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index 5a14415..38a640d 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -261,7 +261,7 @@ def typestr2jadn(typestring: str) -> tuple[str, list[str], list]:
     p_func = r'(?:\(([^)]+)\))?'                    # 3 'ktype', 'vtype', 'enum', 'pointer', 'tagid'
     p_rangepat = r'\{(.*)\}'                        # 4 'minv', 'maxv', 'pattern'
     p_format = r'\s+\/(\w[-\w]*)'                   # 5 'format'
-    p_kw = r'\s+(unique|set|unordered|sequence)'    # 6 multiplicity
+    p_kw = r'\s+(unique|set|unordered|sequence|extend)'    # 6 multiplicity
     pattern = fr'^{p_name}{p_id}{p_func}(.*?)\s*$'
     m = re.match(pattern, typestring)
     if m is None:
@@ -369,6 +369,9 @@ def jadn2typestr(tname: str, topts: list[OPTION_TYPES]) -> str:
 
     if opts.pop('sequence', None):
         extra += ' sequence'
+
+    if opts.pop('extend', None):
+        extra += ' extend'
     return f"{tname}{extra}{f' ?{str(map(str, opts))}?' if opts else ''}"  # Flag unrecognized options
 
 
-- 
2.43.0


From 8eb868935607cded1161dd6b23c47e086754da24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:04 +0000
Subject: [PATCH 34/96] fix: load JIDL file that has a generated-from comment

---
 distribution/src/jadn/convert/jidl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/convert/jidl.py b/distribution/src/jadn/convert/jidl.py
index f1c3d17..cd5f61c 100644
--- a/distribution/src/jadn/convert/jidl.py
+++ b/distribution/src/jadn/convert/jidl.py
@@ -127,7 +127,7 @@ def jidl_loads(doc: str) -> dict:
     types = []
     fields = None
     for line in doc.splitlines():
-        if line:
+        if line and not line.startswith('/*'):                      # Skip "Generated from" comment
             t, v = line2jadn(line, types[-1] if types else None)    # Parse a JIDL line
             if t == 'F':
                 fields.append(v)
-- 
2.43.0


From 154256f1c74ecbc177666f40cb29023dfc96232f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:50 +0000
Subject: [PATCH 35/96] fix: dir option of fields shown by id is kept in the
 field label

---
 distribution/src/jadn/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index 38a640d..12f9c58 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -399,7 +399,9 @@ def jadn2fielddef(fdef: list, tdef: list) -> tuple[str, str, str, str]:
 
     if not is_enum:
         fo, fto = ftopts_s2d(fdef[FieldOptions])
-        fname += '/' if 'dir' in fo else ''
+        if 'dir' in fo:
+            fdesc = f'{fdef[FieldName]}/:: {fdef[FieldDesc]}' if idtype else fdesc
+            fname += '' if idtype else '/'
         tf = ''
         if tagid := fo.get('tagid', None):
             tf = [f[FieldName] for f in tdef[Fields] if f[FieldID] == tagid][0]
@@ -420,7 +422,7 @@ def fielddef2jadn(fid: int, fname: str, fstr: str, fmult: str, fdesc: str) -> li
         ftyperef, topts, fopts = typestr2jadn(fstr)
         # Field is one of: enum.id, enum, field.id, field
         fo.update(topts_s2d(topts))                   # Copy type options (if any) into field options (JADN extension)
-        if fname.endswith('/'):
+        if fname.endswith('/') or (not fname and re.match(r'^(?:\s*\/\/)?\s*[^:]+\/::', fdesc)):
             fo.update({'dir': True})
             fname = fname.rstrip('/')
         if m := re.match(r'^(\d+)(?:\.\.(\d+|\*))?$', fmult) if fmult else None:
@@ -442,7 +444,7 @@ def fielddef2jadn(fid: int, fname: str, fstr: str, fmult: str, fdesc: str) -> li
         fdesc = m.group(1)
         if not fname:
             if m := re.match(r'^([^:]+)::\s*(.*)$', fdesc):
-                fname = m.group(1)
+                fname = m.group(1).rstrip('/')
                 fdesc = m.group(2)
     return [fid, fname, ftyperef, opts_d2s(fo), fdesc] if ftyperef else [fid, fname, fdesc]
 
-- 
2.43.0


From 09a84403ed7ddae273533fe928636f3fd6e06f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:24 +0000
Subject: [PATCH 36/96] fix: escape vertical bar in Markdown table cells

---
 distribution/src/jadn/convert/markdown.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/distribution/src/jadn/convert/markdown.py b/distribution/src/jadn/convert/markdown.py
index 9ad743a..c9f90b2 100644
--- a/distribution/src/jadn/convert/markdown.py
+++ b/distribution/src/jadn/convert/markdown.py
@@ -84,6 +84,7 @@ def markdown_dumps(schema: dict, style: dict = None) -> str:
 
 
 def format_table(rows: list) -> str:
+    rows = [[data.replace('|', '\\|') for data in row] for row in rows]     # Don't split cells that contain vertical bar
     cwidth = [len(data.strip()) for data in rows[0]]
     for row in rows[1:]:
         for c in range(len(row)):
-- 
2.43.0


From a6d9a2611dc11e2113c106fc74d304fab1a1dba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:30 +0000
Subject: [PATCH 37/96] fix: Markdown table of untagged union has no empty name
 column

---
 distribution/src/jadn/convert/markdown.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/convert/markdown.py b/distribution/src/jadn/convert/markdown.py
index c9f90b2..27653e1 100644
--- a/distribution/src/jadn/convert/markdown.py
+++ b/distribution/src/jadn/convert/markdown.py
@@ -7,7 +7,7 @@ import re
 from datetime import datetime
 from typing import Tuple, Union
 from jadn.definitions import TypeName, BaseType, TypeOptions, TypeDesc, Fields, ItemID, FieldID, INFO_ORDER
-from jadn.utils import cleanup_tagid, get_optx, fielddef2jadn, jadn2fielddef, jadn2typestr, raise_error, typestr2jadn
+from jadn.utils import cleanup_tagid, get_optx, fielddef2jadn, id_type, jadn2fielddef, jadn2typestr, raise_error, typestr2jadn
 
 # MARKDOWN -> JADN Type regexes
 p_tname = r'\s*([-$\w]+)'               # Type Name
@@ -54,7 +54,7 @@ def markdown_dumps(schema: dict, style: dict = None) -> str:
             tdef = f'{td[TypeName]} ({jadn2typestr(td[BaseType], td[TypeOptions])})'
             tdesc = f'\n{td[TypeDesc]}\n' if td[TypeDesc] else ''
             text += f'{tdesc}\n**Type: ' + tdef.replace("*", "\*") + '**\n'
-            idt = td[BaseType] == 'Array' or get_optx(td[TypeOptions], 'id') is not None
+            idt = id_type(td)
             table_type = (0 if td[BaseType] == 'Enumerated' else 2) + (0 if idt else 1)
             table = [
                 [['ID', 'Description']],
-- 
2.43.0


From e5195b94903fc733fddeb51be87a4b64463e2d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:36 +0000
Subject: [PATCH 38/96] fix: quote GraphViz edge labels

---
 distribution/src/jadn/convert/diagram_w.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/convert/diagram_w.py b/distribution/src/jadn/convert/diagram_w.py
index 9ba2b80..e8c53cb 100644
--- a/distribution/src/jadn/convert/diagram_w.py
+++ b/distribution/src/jadn/convert/diagram_w.py
@@ -131,7 +131,7 @@ def diagram_dumps(schema: dict, style: dict = {}) -> str:
                 mult = f'"{mult_r}" {rel}> "{mult_f}"' if s['edge_mult'] else f'{rel}>'
                 return f'  n{nodes[td[TypeName]]} {mult} n{nodes[fieldtype]}{elabel}\n'
             elif s['format'] == 'graphviz':
-                edge = [f'label={ename(fd[FieldName])}'] if s['edge_label'] else []
+                edge = [f'label="{ename(fd[FieldName])}"'] if s['edge_label'] else []
                 edge += ['style="dashed"'] if 'link' in fopts else []
                 edge += [f'headlabel="{mult_f}", taillabel="{mult_r}"'] if s['edge_mult'] else []
                 edge_label = f' [{", ".join(edge)}]' if edge else ''
-- 
2.43.0


From c4bbdda1ba56a55a60d6333c5db34fcecd422331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:41 +0000
Subject: [PATCH 39/96] fix: escape markup characters in GraphViz labels

---
 distribution/src/jadn/convert/diagram_w.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/convert/diagram_w.py b/distribution/src/jadn/convert/diagram_w.py
index e8c53cb..7b0a787 100644
--- a/distribution/src/jadn/convert/diagram_w.py
+++ b/distribution/src/jadn/convert/diagram_w.py
@@ -7,6 +7,7 @@ style[format] =
 
 import re
 from datetime import datetime
+from html import escape
 from ..definitions import (TypeName, BaseType, TypeOptions, PRIMITIVE_TYPES,
                            Fields, FieldID, FieldName, FieldType, FieldOptions)
 from ..utils import topts_s2d, ftopts_s2d, multiplicity_str, jadn2typestr, jadn2fielddef
@@ -86,7 +87,7 @@ def diagram_dumps(schema: dict, style: dict = {}) -> str:
             fval = f'{fd[FieldID]} {fname}' + ('' if td[BaseType] == 'Enumerated' else f' : {fl}{fdef}')
         return {
             'plantuml': f'  n{nodes[td[TypeName]]} : {fval}\n',
-            'graphviz': f'  <tr><td align="left">  {fval}  </td></tr>\n'
+            'graphviz': f'  <tr><td align="left">  {escape(fval, quote=False)}  </td></tr>\n'
         }[s['format']]
 
     def node_end() -> str:
@@ -168,6 +169,7 @@ def diagram_dumps(schema: dict, style: dict = {}) -> str:
     for td in schema['types']:
         if (td[TypeName]) in nodes:
             bt = f' : {jadn2typestr(td[BaseType], td[TypeOptions])}' if s['detail'] == 'information' else ''
+            bt = escape(bt, quote=False) if s['format'] == 'graphviz' else bt
             if td[BaseType] in PRIMITIVE_TYPES:
                 text += node_leaf(td, bt)
             else:
-- 
2.43.0


From 67c624ed77687cd74b37990f69c7f3d5cf4d60eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:25 +0000
Subject: [PATCH 40/96] fix: JSON Schema for MapOf types, map and list items of
 any type, all enum styles

---
 .../src/jadn/translate/jsonschema_w.py        | 108 ++++++------------
 1 file changed, 38 insertions(+), 70 deletions(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 959d799..674b1dc 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -41,19 +41,25 @@ CONFIG_MAX = {
 
 
 # Util Functions
-def get_items(stype: str, ctx: dict) -> Optional[list]:  # pylint: disable=R1710
+def base_type(stype: str, ctx: dict) -> str:
     """
-    return enumerated items if stype is Enumerated
+    return base type of built-in or defined type
     """
-    td = ctx['type_defs']
-    et = stype[1:] if stype[0] == OPTION_ID['enum'] else stype
-    if et in td and td[et][BaseType] == 'Enumerated':
-        to = topts_s2d(td[et][TypeOptions])
-        et = to['enum'] if 'enum' in to else et
+    return ctx['type_defs'][stype][BaseType] if stype in ctx['type_defs'] else stype
 
-    to = topts_s2d(td[et][TypeOptions])
-    if et in td and td[et][BaseType] in ('Enumerated', 'Array', 'Choice', 'Map', 'Record') and 'id' not in to:
-        return [f[ItemValue] for f in td[et][Fields]]
+
+def get_items(stype: str, ctx: dict) -> Optional[list]:
+    """
+    return enumerated item names if stype is Enumerated or derived enum
+    """
+    if stype[0] in (OPTION_ID['enum'], OPTION_ID['pointer']):
+        tdef, topts = [], topts_s2d([stype])
+    elif base_type(stype, ctx) == 'Enumerated':
+        tdef = ctx['type_defs'][stype]
+        topts = topts_s2d(tdef[TypeOptions])
+    else:
+        return None
+    return [f[ItemValue] for f in get_enum_items(tdef, topts, ctx['type_defs'])]
 
 
 def spaces(s: str) -> str:
@@ -100,16 +106,12 @@ def w_kvtype(stype: str, ctx: dict) -> dict:
     """
     Make definition from ktype or vtype option
     """
-    stypes = {'Boolean': 'boolean', 'Integer': 'integer', 'Number': 'number', 'String': 'string'}
-    if stype in stypes:
-        return {'type': stypes[stype]}
+    if is_builtin(stype):
+        return w_type(['', stype, [], '', []], {}, ctx)
     if stype[0] in (OPTION_ID['enum'], OPTION_ID['pointer']):
-        tdef = ctx['type_defs'][stype[1:]]
-        topts = topts_s2d(tdef[TypeOptions])
-        fields = get_enum_items(tdef, topts, ctx['type_defs'])
-        idopt = 'id' in topts
-        return w_enum(fields, FieldID if idopt else FieldName, FieldDesc, idopt, ctx)
-    return {'$ref': f'#/definitions/{stype}'}
+        fields = get_enum_items([], topts_s2d([stype]), ctx['type_defs'])
+        return w_enum(fields, FieldName, FieldDesc, False, ctx)
+    return w_ref(stype, ctx)
 
 
 def w_enum(fields: list, vcol: int, dcol: int, idopt: bool, ctx: dict) -> dict:
@@ -122,10 +124,10 @@ def w_enum(fields: list, vcol: int, dcol: int, idopt: bool, ctx: dict) -> dict:
     values = [f[vcol] for f in fields]
     es = ctx['enum_style']
     assert es in ['enum', 'const', 'regex']
-    if es == 'regex':
-        return {'type': 'string', 'pattern': pattern(values)}
+    if es == 'regex' and not idopt:
+        return {'type': 'string', 'pattern': pattern([re.escape(v) for v in values])}
     if es == 'const':
-        return {'oneOf': [{'const': f[vcol], 'description': fdesc(f, f[dcol], idopt)} for f in fields]}
+        return {'oneOf': [{'const': f[vcol], 'description': fdesc(f, f[-1], idopt)} for f in fields]}
     return {'enum': values}
 
 
@@ -298,56 +300,22 @@ def t_map(tdef: list, topts: dict, ctx: dict) -> dict:
 
 
 def t_map_of(tdef: list, topts: dict, ctx: dict) -> dict:
-    items = get_items(topts['ktype'], ctx)
-    vtype = w_kvtype(topts['vtype'], ctx)
     ktype = w_kvtype(topts['ktype'], ctx)
-    
-    opts = tdef[TypeOptions]
-    k_opt = opts[0]
-    k_name = k_opt[1:]
-    
-    v_opt = opts[1]
-    v_name = v_opt[1:]
-    
-    key_array = ctx.get('type_defs', {}).get(k_name)
-    key_type = key_array[1]
-    
-    merged = {}
-    if key_type == 'String':
-        merged = dmerge(
-            w_td('object', tdef[TypeDesc]),
-            {'additionalProperties': False},
-            {'minProperties': topts['minv']} if topts.get('minv', 0) != 0 else {},
-            {'maxProperties': topts['maxv']} if 'maxv' in topts else {},
-            {'patternProperties': {pattern(items): vtype}} if items and ctx['enum_style'] == 'regex' else {}
-        )
-        
-        properties = {
-            k_name : ktype,
-            v_name : vtype
-        }        
-        
-        merged['properties'] = properties
+    vtype = w_kvtype(topts['vtype'], ctx)
+    keys = {}
+    if items := get_items(topts['ktype'], ctx):     # MapOf enumerated key is shortcut for Map
+        keys = {'additionalProperties': False, 'required': items, 'properties': {i: vtype for i in items}}
+    elif base_type(topts['ktype'], ctx) == 'Integer':
+        keys = {'additionalProperties': vtype, 'propertyNames': {'pattern': '^-?[0-9]+$'}}
     else:
-        merged = dmerge(
-            w_td('array', tdef[TypeDesc]),
-            {'additionalItems': False},
-            {'uniqueItems': True},
-            {'minItems': topts['minv']} if topts.get('minv', 0) != 0 else {},
-            {'maxItems': topts['maxv']} if 'maxv' in topts else {},
-        )
-        
-        _items = {
-            "type" : "object",
-            "properties": {
-                k_name : ktype,
-                v_name : vtype
-            }
-        }
-        
-        merged['items'] = _items   
-    
-    return merged
+        keys = {'additionalProperties': vtype, 'propertyNames': ktype}
+
+    return dmerge(
+        w_td('object', tdef[TypeDesc]),
+        {'minProperties': topts['minv']} if topts.get('minv', 0) != 0 else {},
+        {'maxProperties': topts['maxv']} if 'maxv' in topts else {},
+        keys
+    )
 
 
 # Type Map Util
-- 
2.43.0


From 9711c1edfcf38a58d1396c42b9a14a04b735bf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:38 +0000
Subject: [PATCH 41/96] fix: JSON Schema pointer enumerations have the same
 items as unfolded schema

---
 distribution/src/jadn/transform/transform.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index 5f06949..4c5ee24 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -2,7 +2,8 @@ import copy
 
 from typing import Generator, List, NoReturn, Set, Union
 from ..definitions import (
-    TypeName, BaseType, TypeDesc, Fields, ItemID, ItemValue, ItemDesc, FieldName, FieldOptions, FieldDesc, OPTION_ID,
+    TypeName, BaseType, TypeOptions, TypeDesc, Fields, ItemID, ItemValue, ItemDesc, FieldName, FieldType, FieldOptions,
+    FieldDesc, OPTION_ID,
     EXTENSIONS, OPTION_TYPES, is_builtin, has_fields, TypeDefinition, EnumFieldDefinition, GenFieldDefinition)
 from ..utils import (
     del_opt, ftopts_s2d, get_optx, list_type_schema, opts_d2s, object_type_schema, topts_s2d, etrunc, raise_error)
@@ -212,15 +213,20 @@ def unfold_extensions(schema: dict, extensions: Set[str] = None) -> dict:  # Rem
 
 
 def get_enum_items(tdef: list, topts: dict, types: dict) -> list:
-    def ptr(fdef: list):
-        if OPTION_ID['dir'] in fdef[FieldOptions]:
-            return f'{fdef[FieldName]}^'
-        return fdef[FieldName]
+    def ptr(rdef: list, base: str = '') -> Generator[list, None, None]:     # Walk subfields of referenced type
+        if has_fields(rdef[BaseType]):
+            for f in rdef[Fields]:
+                if OPTION_ID['dir'] in f[FieldOptions]:
+                    if f[FieldType] in types:
+                        yield from ptr(types[f[FieldType]], f'{base}{f[FieldName]}/')
+                else:
+                    yield [base + f[FieldName], f[FieldDesc]]
 
     if 'enum' in topts:
-        return types[topts['enum']][Fields]
+        rdef = types[topts['enum']]
+        return get_enum_items(rdef, topts_s2d(rdef[TypeOptions]), types) if rdef[BaseType] == 'Enumerated' else rdef[Fields]
     if 'pointer' in topts:
-        return [(n, ptr(f), '') for n, f in enumerate(types[topts['pointer']][Fields])]
+        return [[n] + f for n, f in enumerate(ptr(types[topts['pointer']]), 1)]
     return tdef[Fields]
 
 
-- 
2.43.0


From 43c170daec4b916df73482956346a8219a90bbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:27 +0000
Subject: [PATCH 42/96] fix: JSON Schema property names of types with id option
 are the ids

---
 distribution/src/jadn/translate/jsonschema_w.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 674b1dc..509ca16 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -176,6 +176,13 @@ def w_fdef(f: list, ctx: dict) -> dict:
     )
 
 
+def w_key(f: list, topts: dict) -> str:
+    """
+    Make property name: JSON object keys are always strings
+    """
+    return str(f[FieldID]) if 'id' in topts else f[FieldName]
+
+
 def w_format(fmt: str) -> dict:
     """
     Make semantic validation keywords
@@ -255,7 +262,7 @@ def t_choice(tdef: list, topts: dict, ctx: dict) -> dict:
             'additionalProperties': False,
             'minProperties': 1,
             'maxProperties': 1,
-            'properties': {f[FieldName]: w_fdef(f, ctx) for f in tdef[Fields]}
+            'properties': {w_key(f, topts): w_fdef(f, ctx) for f in tdef[Fields]}
         }
     )
 
@@ -288,14 +295,14 @@ def t_map(tdef: list, topts: dict, ctx: dict) -> dict:
         fo = ftopts_s2d(f[FieldOptions])[0]
         return fo['minc'] >= 1 if 'minc' in fo else True
 
-    required = [f[FieldName] for f in tdef[Fields] if req(f)]
+    required = [w_key(f, topts) for f in tdef[Fields] if req(f)]
     return dmerge(
         w_td('object', tdef[TypeDesc]),
         {'additionalProperties': False},
         {'required': required} if required else {},
         {'minProperties': topts['minv']} if topts.get('minv', 0) != 0 else {},
         {'maxProperties': topts['maxv']} if 'maxv' in topts else {},
-        {'properties': {f[FieldName]: w_fdef(f, ctx) for f in tdef[Fields]}}
+        {'properties': {w_key(f, topts): w_fdef(f, ctx) for f in tdef[Fields]}}
     )
 
 
-- 
2.43.0


From 43b61f4fa3137d603153171ddcf7b5504ac6243f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:31 +0000
Subject: [PATCH 43/96] fix: JSON Schema untagged unions keep the options of
 built-in alternatives

---
 distribution/src/jadn/translate/jsonschema_w.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 509ca16..36646a2 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -254,7 +254,7 @@ def t_enumerated(tdef: list, topts: dict, ctx: dict) -> dict:
 def t_choice(tdef: list, topts: dict, ctx: dict) -> dict:
     if combine := topts.get('combine'):
         c = {'O': 'anyOf', 'A': 'allOf', 'X': 'oneOf'}[combine]
-        return {c: [TYPE_WRITERS[f[FieldType]](tdef, topts, ctx) if is_builtin(f[FieldType]) else w_ref(f[FieldType], ctx) for f in tdef[Fields]]}
+        return {c: [w_fdef(f, ctx) for f in tdef[Fields]]}
 
     return dmerge(
         w_td('object', tdef[TypeDesc]),
-- 
2.43.0


From 93447fd6e5d272649517d85eebfba0f316e33199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:37 +0000
Subject: [PATCH 44/96] fix: JSON Schema top level uses roots

---
 distribution/src/jadn/translate/jsonschema_w.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 36646a2..f4576ae 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -373,7 +373,7 @@ def json_schema_dumps(schema: dict, verbose=True, enum_style='enum', import_styl
 
     info = schema.get('info', {})
     td = {t[TypeName]: t for t in schema['types']}    # Build index of type definitions
-    exports = [e for e in info.get('exports', []) if e in td]
+    exports = [e for e in info.get('roots', info.get('exports', [])) if e in td]    # Exports is deprecated
     if isinstance(ns := info.get('namespaces', {}), dict):
         imported_types = {k: {} for k in ns}
     elif isinstance(ns, list):
-- 
2.43.0


From 25f837ac914e3ca45e2c65380c62c5b58ba12fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:43 +0000
Subject: [PATCH 45/96] fix: JSON Schema of datetime-ms, eui and fixed-size
 integer formats matches serialized values

---
 distribution/src/jadn/translate/jsonschema_w.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index f4576ae..bbb51fc 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -18,14 +18,16 @@ from ..utils import dmerge, topts_s2d, ftopts_s2d, get_config
 JADN_FMT = {
     'x': {'contentEncoding': 'base16'},
     # 'eui': {'pattern': r'^([0-9a-fA-F]{2}[:-]){5}[0-9a-fA-F]{2}$'},
-    'eui': {'pattern': r'^([0-9a-fA-F]{2}[:-]){5}[0-9A-Fa-f]{2}(([:-][0-9A-Fa-f]{2}){2})?$'},
+    'eui': {'pattern': r'^([0-9a-fA-F]{2}[:-]?){5}[0-9A-Fa-f]{2}(([:-]?[0-9A-Fa-f]{2}){2})?$'},
     'ipv4-addr': {'pattern': r'^((25[0-5]|2[0-4][0-9]|[01]?[0-9]?[0-9])\.){3}(25[0-5]|2[0-4][0-9]|[01]?[0-9]?[0-9])$'},
     'ipv6-addr': {'pattern': r'^(([0-9a-fA-F]{1,4}:){7,7}[0-9a-fA-F]{1,4}|([0-9a-fA-F]{1,4}:){1,7}:|([0-9a-fA-F]{1,4}:){1,6}:[0-9a-fA-F]{1,4}|([0-9a-fA-F]{1,4}:){1,5}(:[0-9a-fA-F]{1,4}){1,2}|([0-9a-fA-F]{1,4}:){1,4}(:[0-9a-fA-F]{1,4}){1,3}|([0-9a-fA-F]{1,4}:){1,3}(:[0-9a-fA-F]{1,4}){1,4}|([0-9a-fA-F]{1,4}:){1,2}(:[0-9a-fA-F]{1,4}){1,5}|[0-9a-fA-F]{1,4}:((:[0-9a-fA-F]{1,4}){1,6})|:((:[0-9a-fA-F]{1,4}){1,7}|:)|fe80:(:[0-9a-fA-F]{0,4}){0,4}%[0-9a-zA-Z]{1,}|::(ffff(:0{1,4}){0,1}:){0,1}((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])|([0-9a-fA-F]{1,4}:){1,4}:((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9]))(%.+)$'},
     'ipv4-net': {'pattern': r'^((25[0-5]|2[0-4][0-9]|[01]?[0-9]?[0-9])\.){3}(25[0-5]|2[0-4][0-9]|[01]?[0-9]?[0-9])(\/(3[0-2]|[0-2]?[0-9]))?$'},
     'ipv6-net': {'pattern': r'^(([0-9a-fA-F]{1,4}:){7,7}[0-9a-fA-F]{1,4}|([0-9a-fA-F]{1,4}:){1,7}:|([0-9a-fA-F]{1,4}:){1,6}:[0-9a-fA-F]{1,4}|([0-9a-fA-F]{1,4}:){1,5}(:[0-9a-fA-F]{1,4}){1,2}|([0-9a-fA-F]{1,4}:){1,4}(:[0-9a-fA-F]{1,4}){1,3}|([0-9a-fA-F]{1,4}:){1,3}(:[0-9a-fA-F]{1,4}){1,4}|([0-9a-fA-F]{1,4}:){1,2}(:[0-9a-fA-F]{1,4}){1,5}|[0-9a-fA-F]{1,4}:((:[0-9a-fA-F]{1,4}){1,6})|:((:[0-9a-fA-F]{1,4}){1,7}|:)|fe80:(:[0-9a-fA-F]{0,4}){0,4}%[0-9a-zA-Z]{1,}|::(ffff(:0{1,4}){0,1}:){0,1}((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])|([0-9a-fA-F]{1,4}:){1,4}:((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9]))(%.+)?s*(\/([0-9]|[1-9][0-9]|1[0-1][0-9]|12[0-8]))?$'},
     'i8': {'minimum': -128, 'maximum': 127},
     'i16': {'minimum': -32768, 'maximum': 32767},
-    'i32': {'minimum': -2147483648, 'maximum': 2147483647}
+    'i32': {'minimum': -2147483648, 'maximum': 2147483647},
+    'i64': {'minimum': -2 ** 63, 'maximum': 2 ** 63 - 1},
+    'datetime-ms': {'format': 'date-time'}
 }
 
 CONFIG_MAX = {
@@ -213,7 +215,8 @@ def t_boolean(tdef: list, topts: dict, ctx: dict) -> dict:
 
 def t_integer(tdef: list, topts: dict, ctx: dict) -> dict:
     return dmerge(
-        w_td('integer', tdef[TypeDesc]),
+        w_td('string' if topts.get('format') == 'datetime-ms' else 'integer', tdef[TypeDesc]),
+        w_format(topts['format']) if topts.get('format') in JADN_FMT else {},
         {'minimum': topts['minv']} if 'minv' in topts else {},
         {'maximum': topts['maxv']} if 'maxv' in topts else {}
     )
-- 
2.43.0


From 622873fae9d1726641c601b4283f4f5fe1ccd7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:22 +0000
Subject: [PATCH 46/96] fix: JSON Schema link fields have the type of the
 primary key

---
 distribution/src/jadn/translate/jsonschema_w.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index bbb51fc..0a78e65 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -156,12 +156,25 @@ def w_ref(tname: str, ctx: dict) -> dict:
     return {'$ref': f'#/definitions/{tn}'}
 
 
+def w_link(tdef: list, ctx: dict) -> dict:
+    """
+    Make definition of the primary key of a type
+    """
+    if tdef[BaseType] == 'MapOf':
+        return w_kvtype(topts_s2d(tdef[TypeOptions])['ktype'], ctx)
+    keys = [f for f in tdef[Fields] if OPTION_ID['key'] in f[FieldOptions]]
+    return w_fdef(keys[-1], ctx)
+
+
 def w_fdef(f: list, ctx: dict) -> dict:
     """
     Make field definition
     """
     fopts, topts = ftopts_s2d(f[FieldOptions])
-    if is_builtin(f[FieldType]):
+    td = ctx['type_defs'].get(f[FieldType])
+    if 'link' in fopts and td:          # Value is the primary key of the referenced type
+        t = w_link(td, ctx)
+    elif is_builtin(f[FieldType]):
         t = w_type(['', f[FieldType], f[FieldOptions], f[FieldDesc]], topts, ctx)
     else:
         t = dmerge(w_ref(f[FieldType], ctx), {'description': f[FieldDesc]})
-- 
2.43.0


From 7da9be8ecdc889d2a16c30496db3209f20d5ce3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:26 +0000
Subject: [PATCH 47/96] fix: JSON Schema external-tag fields allow any choice
 alternative

---
 distribution/src/jadn/translate/jsonschema_w.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 0a78e65..1d3ecdb 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -174,6 +174,8 @@ def w_fdef(f: list, ctx: dict) -> dict:
     td = ctx['type_defs'].get(f[FieldType])
     if 'link' in fopts and td:          # Value is the primary key of the referenced type
         t = w_link(td, ctx)
+    elif 'tagid' in fopts and td:       # Value is the bare value of one of the choice alternatives
+        t = {'anyOf': [w_fdef(c, ctx) for c in td[Fields]]}
     elif is_builtin(f[FieldType]):
         t = w_type(['', f[FieldType], f[FieldOptions], f[FieldDesc]], topts, ctx)
     else:
-- 
2.43.0


From a0938812401af89bb0e97095649dbbb376fe5235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:31 +0000
Subject: [PATCH 48/96] fix: JSON Schema arrays allow null for optional items
 and require mandatory items

---
 .../src/jadn/translate/jsonschema_w.py        | 25 +++++++++++++------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 1d3ecdb..9ffaf2c 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -193,6 +193,13 @@ def w_fdef(f: list, ctx: dict) -> dict:
     )
 
 
+def w_req(f: list) -> bool:
+    """
+    True if field is required
+    """
+    return ftopts_s2d(f[FieldOptions])[0].get('minc', 1) >= 1
+
+
 def w_key(f: list, topts: dict) -> str:
     """
     Make property name: JSON object keys are always strings
@@ -289,12 +296,18 @@ def t_array(tdef: list, topts: dict, ctx: dict) -> dict:
     fmt = w_format(topts['format']) if 'format' in topts else {}
     if fmt:
         return dmerge(w_td('string', tdef[TypeDesc]), fmt)
+    def item(f: list) -> dict:      # Optional items that precede a populated item are null
+        t = w_fdef(f, ctx)
+        return t if w_req(f) else {'anyOf': [t, {'type': 'null'}]}
+
+    required = [f[FieldID] for f in tdef[Fields] if w_req(f)]
+    minv = max([topts.get('minv', 0), *required])
     return dmerge(
         w_td('array', tdef[TypeDesc]),
         {'additionalItems': False},
-        {'minItems': topts['minv']} if topts.get('minv', 0) != 0 else {},
-        {'maxItems': topts['maxv']} if 'maxv' in topts else {},
-        {'items': [w_fdef(f, ctx) for f in tdef[Fields]]}
+        {'minItems': minv} if minv != 0 else {},
+        {'maxItems': topts['maxv']} if 'maxv' in topts and len(required) == len(tdef[Fields]) else {},
+        {'items': [item(f) for f in tdef[Fields]]}
     )
 
 
@@ -309,11 +322,7 @@ def t_array_of(tdef: list, topts: dict, ctx: dict) -> dict:
 
 
 def t_map(tdef: list, topts: dict, ctx: dict) -> dict:
-    def req(f: list) -> bool:
-        fo = ftopts_s2d(f[FieldOptions])[0]
-        return fo['minc'] >= 1 if 'minc' in fo else True
-
-    required = [w_key(f, topts) for f in tdef[Fields] if req(f)]
+    required = [w_key(f, topts) for f in tdef[Fields] if w_req(f)]
     return dmerge(
         w_td('object', tdef[TypeDesc]),
         {'additionalProperties': False},
-- 
2.43.0


From c648aa692129d79a1a35bb5169b6784952d30a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:36 +0000
Subject: [PATCH 49/96] fix: JSON Schema unique option of a repeated field
 applies to its list of values

---
 distribution/src/jadn/translate/jsonschema_w.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 9ffaf2c..df2e2d4 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -176,8 +176,9 @@ def w_fdef(f: list, ctx: dict) -> dict:
         t = w_link(td, ctx)
     elif 'tagid' in fopts and td:       # Value is the bare value of one of the choice alternatives
         t = {'anyOf': [w_fdef(c, ctx) for c in td[Fields]]}
-    elif is_builtin(f[FieldType]):
-        t = w_type(['', f[FieldType], f[FieldOptions], f[FieldDesc]], topts, ctx)
+    elif is_builtin(f[FieldType]):      # Unique option of a repeated field applies to the list of its values
+        to = {k: v for k, v in topts.items() if k != 'unique' or fopts.get('maxc', 1) == 1}
+        t = w_type(['', f[FieldType], f[FieldOptions], f[FieldDesc]], to, ctx)
     else:
         t = dmerge(w_ref(f[FieldType], ctx), {'description': f[FieldDesc]})
 
-- 
2.43.0


From 87aae2fc675ee7083c39b76d179f93aba8a50b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:53 +0000
Subject: [PATCH 50/96] fix: tag-uuid value that is not a list is a type error

---
 distribution/src/jadn/codec/format_validate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/format_validate.py b/distribution/src/jadn/codec/format_validate.py
index c51c270..4d13df3 100644
--- a/distribution/src/jadn/codec/format_validate.py
+++ b/distribution/src/jadn/codec/format_validate.py
@@ -73,7 +73,8 @@ def b_uuid(bval: bytes) -> bytes:           # UUID is 128 bits
 
 
 def a_tag_uuid(aval: [str, bytes]) -> [str, bytes]:
-    if (    len(aval) == 2 and
+    if (    isinstance(aval, list) and
+            len(aval) == 2 and
             isinstance(aval[0], str) and
             isinstance(aval[1], bytes) and
             len(aval[1]) == 16):
-- 
2.43.0


From 2dcddecf9fb25f3b5ae4335221de85ceb00fcbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:58 +0000
Subject: [PATCH 51/96] fix: regex format with a huge repeat count raised
 OverflowError

---
 distribution/src/jadn/codec/format_validate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/distribution/src/jadn/codec/format_validate.py b/distribution/src/jadn/codec/format_validate.py
index 4d13df3..f6bbf95 100644
--- a/distribution/src/jadn/codec/format_validate.py
+++ b/distribution/src/jadn/codec/format_validate.py
@@ -175,6 +175,8 @@ def format_validators() -> FormatTable:  # Generate validation function table
                 )
             except jsonschema.exceptions.ValidationError as e:
                 raise ValueError(e.message)
+            except OverflowError as e:      # regex repeat count is too large to compile
+                raise ValueError(e)
             return val
         return validate
 
-- 
2.43.0


From cecf08ef221e40b627c081ceb12091b38d834ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:44 +0000
Subject: [PATCH 52/96] fix: unfolding a partly unfolded schema duplicated
 derived enumerations

---
 distribution/src/jadn/transform/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index 4c5ee24..5a864c5 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -125,8 +125,8 @@ def unfold_derived_enum(schema: dict, sys: str) -> NoReturn:
         n = get_optx(opts, optname)
         if n is not None:
             if name := epname([opts[n][1:]], sys):
-                if name in enums:       # Reference existing Enumerated type
-                    opts[n] = f'{opts[n][:1]}{enums[name]}'
+                if name in enums or name in typex:      # Reference existing Enumerated type
+                    opts[n] = f'{opts[n][:1]}{enums.get(name, name)}'
                 else:                   # Make new Enumerated type
                     make_items = enum_items if opts[n][1:2] == OPTION_ID['enum'] else pointer_items
                     opts[n] = f'{opts[n][:1]}{name}'
-- 
2.43.0


From 505844d3ceb492ccbe4f3c8c30deaa86f3c70baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:50 +0000
Subject: [PATCH 53/96] fix: unfolding multiplicity of link fields without
 unfolding links lost the link

---
 distribution/src/jadn/transform/transform.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index 5a864c5..44b6b50 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -75,7 +75,7 @@ def unfold_multiplicity(schema: dict, sys: str) -> NoReturn:
         if has_fields(tdef.BaseType):
             for fdef in tdef.Fields:
                 fo, fto = ftopts_s2d(fdef.FieldOptions)
-                if 'maxc' in fo and fo['maxc'] != 1:
+                if 'maxc' in fo and fo['maxc'] != 1 and 'link' not in fo:   # Type of a link field is not known until it is unfolded
                     minc = fo.get('minc', 1)
                     vtype = fdef.FieldType
                     if elem := [o for o in fto if o != 'unique']:   # Type options apply to each value of the field
@@ -105,7 +105,8 @@ def unfold_anonymous_types(schema: dict, sys: str) -> NoReturn:
         if has_fields(tdef.BaseType):
             for fdef in tdef.Fields:
                 # If FieldOptions contains a type option, create an explicit type
-                if fto := ftopts_s2d(fdef.FieldOptions)[1]:
+                fo, fto = ftopts_s2d(fdef.FieldOptions)
+                if fto and 'link' not in fo:
                     # Move all type options to new type
                     newopts = [fdef.FieldOptions.pop(get_optx(fdef.FieldOptions, o)) for o in fto]
                     name = epname(newopts, sys)              # If enum/pointer option, use derived enum typename
-- 
2.43.0


From 910c31b800d3bde12cc7218b9c23668c05eda827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:55 +0000
Subject: [PATCH 54/96] fix: unfolding maps with enumerated keys needs the
 items of derived enumerations

---
 distribution/src/jadn/transform/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index 44b6b50..865c74b 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -206,7 +206,7 @@ def unfold_extensions(schema: dict, extensions: Set[str] = None) -> dict:  # Rem
         unfold_multiplicity(sc, sys)
     if 'AnonymousType' in extensions:           # Expand inline definitions into named type definitions
         unfold_anonymous_types(sc, sys)
-    if 'DerivedEnum' in extensions:             # Generate Enumerated list of fields or JSON Pointers
+    if 'DerivedEnum' in extensions or 'MapOfEnum' in extensions:    # Generate Enumerated list of fields or JSON Pointers
         unfold_derived_enum(sc, sys)
     if 'MapOfEnum' in extensions:               # Generate explicit Map from MapOf
         unfold_map_of_enum(sc)
-- 
2.43.0


From 3bcd9638bb041750842e45c4ac390337ac8d9cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:17 +0000
Subject: [PATCH 55/96] fix: check accepted an empty format name

---
 distribution/src/jadn/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/core.py b/distribution/src/jadn/core.py
index 55a20ab..c0db0d8 100644
--- a/distribution/src/jadn/core.py
+++ b/distribution/src/jadn/core.py
@@ -43,7 +43,7 @@ def check_typeopts(type_name: str, base_type: str, topts: dict) -> None:
         raise_error(f'String cannot have both pattern and size constraints: {type_name}')  # disable for debugging
 
     # TODO: if format defines array, add minv/maxv (prevents adding default max)
-    if fmt := topts.get('format'):
+    if (fmt := topts.get('format')) is not None:
         if fmt not in VALID_FORMATS or base_type != VALID_FORMATS[fmt]:
             raise_error(f'Unsupported format {fmt} in {type_name} {base_type}')
     if 'enum' in topts and 'pointer' in topts:
-- 
2.43.0


From 14bb20199d07eed2c8063cb06a012d2dc9b878d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:22 +0000
Subject: [PATCH 56/96] fix: check accepted a dangling external tag with id 0

---
 distribution/src/jadn/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/core.py b/distribution/src/jadn/core.py
index c0db0d8..e7f30ee 100644
--- a/distribution/src/jadn/core.py
+++ b/distribution/src/jadn/core.py
@@ -133,7 +133,7 @@ def check(schema: dict) -> dict:
                 if minc < 0 or maxc < 0 or (0 < maxc < minc):
                     raise_error(f'{type_def.TypeName}/{field.FieldName} bad multiplicity {minc} {maxc}')
 
-                if tf := fo.get('tagid', None):
+                if (tf := fo.get('tagid', None)) is not None:
                     if tf not in {f[FieldID] for f in fields}:
                         raise_error(f'{type_def.TypeName}/{field.FieldName}({field.FieldType}) choice has bad external tag {tf}')
                 if is_builtin(field.FieldType):
-- 
2.43.0


From 4eae44b127dfab28971e5c404c47bb4d0943b781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:59 +0000
Subject: [PATCH 57/96] fix: external tag field with id 0 was lost in text
 formats

---
 distribution/src/jadn/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index 12f9c58..37aacc2 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -403,7 +403,7 @@ def jadn2fielddef(fdef: list, tdef: list) -> tuple[str, str, str, str]:
             fdesc = f'{fdef[FieldName]}/:: {fdef[FieldDesc]}' if idtype else fdesc
             fname += '' if idtype else '/'
         tf = ''
-        if tagid := fo.get('tagid', None):
+        if (tagid := fo.get('tagid', None)) is not None:
             tf = [f[FieldName] for f in tdef[Fields] if f[FieldID] == tagid][0]
             tf = f'(TagId[{tf if tf else tagid}])'
         ft = jadn2typestr(f'{fdef[FieldType]}{tf}', opts_d2s(fto))
-- 
2.43.0


From 1cfa1bad876944b7a8d9318842aa6845cc914abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:23 +0000
Subject: [PATCH 58/96] fix: check refused enumerated items described by the
 name of a base type

---
 distribution/src/jadn/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/core.py b/distribution/src/jadn/core.py
index e7f30ee..1d7dd9d 100644
--- a/distribution/src/jadn/core.py
+++ b/distribution/src/jadn/core.py
@@ -93,7 +93,7 @@ def check(schema: dict) -> dict:
         if ('enum' in type_opts or 'pointer' in type_opts) and fields:
             raise_error(f'{type_def.TypeName}({type_def.BaseType}) should not have defined fields with the option enum/pointer')
         # Invalid anonymous field types
-        for fd in fields:
+        for fd in fields if type_def.BaseType != 'Enumerated' else []:
             if has_fields(fd[FieldType]):
                 raise_error(f'{type_def[TypeName]}/{fd[FieldName]}({fd[FieldID]}): Invalid type "{fd[FieldType]}"')
 
-- 
2.43.0


From b57d2ae03b74a404e9c9da9aa78311a499b917f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:28 +0000
Subject: [PATCH 59/96] fix: external tag of a type named Key or Link was lost
 in text formats

---
 distribution/src/jadn/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index 37aacc2..6e5e132 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -416,7 +416,7 @@ def fielddef2jadn(fid: int, fname: str, fstr: str, fmult: str, fdesc: str) -> li
     ftyperef = ''
     fo = {}
     if fstr:
-        if m := re.match(r'^(Link|Key)\((.*)\)$', fstr):
+        if m := re.match(r'^(Link|Key)\((?!TagId\[)(.*)\)$', fstr):     # Key and Link may also be names of types
             fo = {m.group(1).lower(): True}
             fstr = m.group(2)
         ftyperef, topts, fopts = typestr2jadn(fstr)
-- 
2.43.0


From 0c406a99dfa368c1a12b200c420b2e6e251efe8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:32 +0000
Subject: [PATCH 60/96] fix: JIDL item value that looks like a pattern hid the
 start of its description

---
 distribution/src/jadn/convert/jidl.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/convert/jidl.py b/distribution/src/jadn/convert/jidl.py
index cd5f61c..772d7d8 100644
--- a/distribution/src/jadn/convert/jidl.py
+++ b/distribution/src/jadn/convert/jidl.py
@@ -92,7 +92,8 @@ def line2jadn(line: str, tdef: list) -> tuple[str, list]:
             return 'I', [m.group(1), m.group(2)]
 
         q = re.search(r'\{pattern="(?:[^"\\]|\\.|"(?!\}))+"\}', line)  # Find String pattern option, but not in a description
-        s = q.end() if q and ' //' not in line[:q.start()] else 0
+        item = tdef and tdef[BaseType] == 'Enumerated' and re.match(p_id, line)     # Enumerated items don't have a pattern
+        s = q.end() if q and not item and ' //' not in line[:q.start()] else 0
         desc = ''
         if d := re.search(r' //', line[s:]):
             desc = line[s + d.end():].strip()
-- 
2.43.0


From 0cd64caabb3ca558a00a84e70d18c26511d3f6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:57 +0000
Subject: [PATCH 61/96] fix: id item value lost its trailing slash in text
 formats

---
 distribution/src/jadn/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index 6e5e132..1ac61ba 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -444,7 +444,7 @@ def fielddef2jadn(fid: int, fname: str, fstr: str, fmult: str, fdesc: str) -> li
         fdesc = m.group(1)
         if not fname:
             if m := re.match(r'^([^:]+)::\s*(.*)$', fdesc):
-                fname = m.group(1).rstrip('/')
+                fname = m.group(1).rstrip('/') if ftyperef else m.group(1)      # '/' marks a dir field
                 fdesc = m.group(2)
     return [fid, fname, ftyperef, opts_d2s(fo), fdesc] if ftyperef else [fid, fname, fdesc]
 
-- 
2.43.0


From d940fa0fbce9da7f67be96191c15d2d97929ef95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:26 +0000
Subject: [PATCH 62/96] fix: JSON Schema pattern of ipv6-addr required a zone
 identifier

---
 distribution/src/jadn/translate/jsonschema_w.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index df2e2d4..588341a 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -20,7 +20,7 @@ JADN_FMT = {
     # 'eui': {'pattern': r'^([0-9a-fA-F]{2}[:-]){5}[0-9a-fA-F]{2}$'},
     'eui': {'pattern': r'^([0-9a-fA-F]{2}[:-]?){5}[0-9A-Fa-f]{2}(([:-]?[0-9A-Fa-f]{2}){2})?$'},
     'ipv4-addr': {'pattern': r'^((25[0-5]|2[0-4][0-9]|[01]?[0-9]?[0-9])\.){3}(25[0-5]|2[0-4][0-9]|[01]?[0-9]?[0-9])$'},
-    'ipv6-addr': {'pattern': r'^(([0-9a-fA-F]{1,4}:){7,7}[0-9a-fA-F]{1,4}|([0-9a-fA-F]{1,4}:){1,7}:|([0-9a-fA-F]{1,4}:){1,6}:[0-9a-fA-F]{1,4}|([0-9a-fA-F]{1,4}:){1,5}(:[0-9a-fA-F]{1,4}){1,2}|([0-9a-fA-F]{1,4}:){1,4}(:[0-9a-fA-F]{1,4}){1,3}|([0-9a-fA-F]{1,4}:){1,3}(:[0-9a-fA-F]{1,4}){1,4}|([0-9a-fA-F]{1,4}:){1,2}(:[0-9a-fA-F]{1,4}){1,5}|[0-9a-fA-F]{1,4}:((:[0-9a-fA-F]{1,4}){1,6})|:((:[0-9a-fA-F]{1,4}){1,7}|:)|fe80:(:[0-9a-fA-F]{0,4}){0,4}%[0-9a-zA-Z]{1,}|::(ffff(:0{1,4}){0,1}:){0,1}((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])|([0-9a-fA-F]{1,4}:){1,4}:((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9]))(%.+)$'},
+    'ipv6-addr': {'pattern': r'^(([0-9a-fA-F]{1,4}:){7,7}[0-9a-fA-F]{1,4}|([0-9a-fA-F]{1,4}:){1,7}:|([0-9a-fA-F]{1,4}:){1,6}:[0-9a-fA-F]{1,4}|([0-9a-fA-F]{1,4}:){1,5}(:[0-9a-fA-F]{1,4}){1,2}|([0-9a-fA-F]{1,4}:){1,4}(:[0-9a-fA-F]{1,4}){1,3}|([0-9a-fA-F]{1,4}:){1,3}(:[0-9a-fA-F]{1,4}){1,4}|([0-9a-fA-F]{1,4}:){1,2}(:[0-9a-fA-F]{1,4}){1,5}|[0-9a-fA-F]{1,4}:((:[0-9a-fA-F]{1,4}){1,6})|:((:[0-9a-fA-F]{1,4}){1,7}|:)|fe80:(:[0-9a-fA-F]{0,4}){0,4}%[0-9a-zA-Z]{1,}|::(ffff(:0{1,4}){0,1}:){0,1}((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])|([0-9a-fA-F]{1,4}:){1,4}:((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9]))(%.+)?$'},
     'ipv4-net': {'pattern': r'^((25[0-5]|2[0-4][0-9]|[01]?[0-9]?[0-9])\.){3}(25[0-5]|2[0-4][0-9]|[01]?[0-9]?[0-9])(\/(3[0-2]|[0-2]?[0-9]))?$'},
     'ipv6-net': {'pattern': r'^(([0-9a-fA-F]{1,4}:){7,7}[0-9a-fA-F]{1,4}|([0-9a-fA-F]{1,4}:){1,7}:|([0-9a-fA-F]{1,4}:){1,6}:[0-9a-fA-F]{1,4}|([0-9a-fA-F]{1,4}:){1,5}(:[0-9a-fA-F]{1,4}){1,2}|([0-9a-fA-F]{1,4}:){1,4}(:[0-9a-fA-F]{1,4}){1,3}|([0-9a-fA-F]{1,4}:){1,3}(:[0-9a-fA-F]{1,4}){1,4}|([0-9a-fA-F]{1,4}:){1,2}(:[0-9a-fA-F]{1,4}){1,5}|[0-9a-fA-F]{1,4}:((:[0-9a-fA-F]{1,4}){1,6})|:((:[0-9a-fA-F]{1,4}){1,7}|:)|fe80:(:[0-9a-fA-F]{0,4}){0,4}%[0-9a-zA-Z]{1,}|::(ffff(:0{1,4}){0,1}:){0,1}((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])|([0-9a-fA-F]{1,4}:){1,4}:((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9]))(%.+)?s*(\/([0-9]|[1-9][0-9]|1[0-1][0-9]|12[0-8]))?$'},
     'i8': {'minimum': -128, 'maximum': 127},
-- 
2.43.0


From cfb95bc98bdfa743df0deb2608ef76c2eb393b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:31 +0000
Subject: [PATCH 63/96] fix: JSON Schema of a field with unlimited multiplicity
 omitted the default limit

---
 distribution/src/jadn/translate/jsonschema_w.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 588341a..73e7d04 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -189,7 +189,7 @@ def w_fdef(f: list, ctx: dict) -> dict:
         {'description': f[FieldDesc]},
         {'uniqueItems': True} if 'unique' in topts else {},
         {'minItems': minv} if minv != 0 else {},
-        {'maxItems': maxv} if maxv != 0 else {},
+        {'maxItems': maxv if maxv != 0 else ctx['config']['$MaxElements']},
         {'items': t}
     )
 
-- 
2.43.0


From 6fb7b7494f77ecc62878e4bd69f52465a61c98e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:31 +0000
Subject: [PATCH 64/96] fix: JSON Schema limits of integers with a size format
 replaced the range of the format

---
 distribution/src/jadn/translate/jsonschema_w.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 73e7d04..c86d94a 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -237,11 +237,12 @@ def t_boolean(tdef: list, topts: dict, ctx: dict) -> dict:
 
 
 def t_integer(tdef: list, topts: dict, ctx: dict) -> dict:
+    fmt = w_format(topts['format']) if topts.get('format') in JADN_FMT else {}
     return dmerge(
         w_td('string' if topts.get('format') == 'datetime-ms' else 'integer', tdef[TypeDesc]),
-        w_format(topts['format']) if topts.get('format') in JADN_FMT else {},
-        {'minimum': topts['minv']} if 'minv' in topts else {},
-        {'maximum': topts['maxv']} if 'maxv' in topts else {}
+        fmt,
+        {'minimum': max(topts['minv'], fmt.get('minimum', topts['minv']))} if 'minv' in topts else {},
+        {'maximum': min(topts['maxv'], fmt.get('maximum', topts['maxv']))} if 'maxv' in topts else {}
     )
 
 
-- 
2.43.0


From adc8a2cdf7bf605d2e5bce1180b5090f0becfe20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:13 +0000
Subject: [PATCH 65/96] fix: JSON Schema of MapOf with date-time keys required
 integer property names

---
 distribution/src/jadn/translate/jsonschema_w.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index c86d94a..6228fe0 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -50,6 +50,14 @@ def base_type(stype: str, ctx: dict) -> str:
     return ctx['type_defs'][stype][BaseType] if stype in ctx['type_defs'] else stype
 
 
+def is_datetime(stype: str, ctx: dict) -> bool:
+    """
+    return True if values of a defined Integer type are serialized as date-time strings
+    """
+    td = ctx['type_defs'].get(stype)
+    return td is not None and topts_s2d(td[TypeOptions]).get('format') == 'datetime-ms'
+
+
 def get_items(stype: str, ctx: dict) -> Optional[list]:
     """
     return enumerated item names if stype is Enumerated or derived enum
@@ -341,7 +349,7 @@ def t_map_of(tdef: list, topts: dict, ctx: dict) -> dict:
     keys = {}
     if items := get_items(topts['ktype'], ctx):     # MapOf enumerated key is shortcut for Map
         keys = {'additionalProperties': False, 'required': items, 'properties': {i: vtype for i in items}}
-    elif base_type(topts['ktype'], ctx) == 'Integer':
+    elif base_type(topts['ktype'], ctx) == 'Integer' and not is_datetime(topts['ktype'], ctx):
         keys = {'additionalProperties': vtype, 'propertyNames': {'pattern': '^-?[0-9]+$'}}
     else:
         keys = {'additionalProperties': vtype, 'propertyNames': ktype}
-- 
2.43.0


From 50204400c0d7f4af0d6bf71e8880e3c505ab0f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:26 +0000
Subject: [PATCH 66/96] fix: information values with several lines broke the
 header comments of diagrams

---
 distribution/src/jadn/convert/diagram_w.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/convert/diagram_w.py b/distribution/src/jadn/convert/diagram_w.py
index 7b0a787..98ba235 100644
--- a/distribution/src/jadn/convert/diagram_w.py
+++ b/distribution/src/jadn/convert/diagram_w.py
@@ -160,7 +160,8 @@ def diagram_dumps(schema: dict, style: dict = {}) -> str:
 
     text = ''
     for k, v in schema.get('info', {}).items():
-        text += f"{fmt['comment']} {k}: {v}\n"
+        for line in f'{k}: {v}'.splitlines():
+            text += f"{fmt['comment']} {line}\n"
     text += f"\n{fmt['start']}\n  " + '\n  '.join(fmt['header']) + '\n\n'
 
     hide_types = [] if s['attributes'] else (*PRIMITIVE_TYPES, 'Enumerated')
-- 
2.43.0


From 771229d65011118c61343a516e9489dd8bc9a418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:32 +0000
Subject: [PATCH 67/96] fix: descriptions with several lines split the rows of
 Markdown tables

---
 distribution/src/jadn/convert/markdown.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/convert/markdown.py b/distribution/src/jadn/convert/markdown.py
index 27653e1..975efe2 100644
--- a/distribution/src/jadn/convert/markdown.py
+++ b/distribution/src/jadn/convert/markdown.py
@@ -84,7 +84,8 @@ def markdown_dumps(schema: dict, style: dict = None) -> str:
 
 
 def format_table(rows: list) -> str:
-    rows = [[data.replace('|', '\\|') for data in row] for row in rows]     # Don't split cells that contain vertical bar
+    # Don't split cells that contain vertical bar or rows that contain line breaks
+    rows = [['<br>'.join(data.strip().splitlines()).replace('|', '\\|') for data in row] for row in rows]
     cwidth = [len(data.strip()) for data in rows[0]]
     for row in rows[1:]:
         for c in range(len(row)):
-- 
2.43.0


From 5b4c58db423dcb68bd5f23fadb019f03515599f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:56 +0000
Subject: [PATCH 68/96] fix: names of unfolded types collided with names of
 resolved types

---
 distribution/src/jadn/transform/transform.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index 865c74b..36941bc 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -22,6 +22,17 @@ def strip_comments(schema: dict, width=0) -> dict:  # Strip or truncate comments
 
 # Remove extensions from schema
 
+# Make the name of a new type different from the names of existing types
+def new_typename(schema: dict, name: str) -> str:
+    names = {t.TypeName for t in schema['types']}
+    n = 1
+    newname = name
+    while newname in names:
+        n += 1
+        newname = f'{name}{n}'
+    return newname
+
+
 # Replace Key and Link options with explicit types
 def unfold_link(schema: dict, sys: str) -> NoReturn:
     ltypes = []     # Types that have links
@@ -36,7 +47,7 @@ def unfold_link(schema: dict, sys: str) -> NoReturn:
                 fo, fto = ftopts_s2d(fdef.FieldOptions)
                 if 'key' in fo:
                     if (newname := fdef.FieldType) not in typex:
-                        newname = f'{tdef.TypeName}{sys}{fdef.FieldName}'
+                        newname = new_typename(schema, f'{tdef.TypeName}{sys}{fdef.FieldName}')
                         newopts = [fdef.FieldOptions.pop(get_optx(fdef.FieldOptions, o)) for o in fto]
                         schema['types'].append(TypeDefinition(newname, fdef.FieldType, newopts, fdef.FieldDesc))
                         fdef.FieldType = newname           # Redirect field to explicit type definition
@@ -80,7 +91,7 @@ def unfold_multiplicity(schema: dict, sys: str) -> NoReturn:
                     vtype = fdef.FieldType
                     if elem := [o for o in fto if o != 'unique']:   # Type options apply to each value of the field
                         elopts = [fdef.FieldOptions.pop(get_optx(fdef.FieldOptions, o)) for o in elem]
-                        vtype = epname(elopts, sys) or f'{tdef.TypeName}{sys}{fdef.FieldName}{sys}Item'
+                        vtype = epname(elopts, sys) or new_typename(schema, f'{tdef.TypeName}{sys}{fdef.FieldName}{sys}Item')
                         if vtype not in [t.TypeName for t in schema['types']]:
                             schema['types'].append(TypeDefinition(vtype, fdef.FieldType, elopts, fdef.FieldDesc))
                     newopts = {
@@ -90,7 +101,7 @@ def unfold_multiplicity(schema: dict, sys: str) -> NoReturn:
                         **({'unique': True} if 'unique' in fto else {})  # Move unique option to ArrayOf
                     }
                     # Point existing field to new ArrayOf
-                    fdef.FieldType = f'{tdef.TypeName}{sys}{fdef.FieldName}'
+                    fdef.FieldType = new_typename(schema, f'{tdef.TypeName}{sys}{fdef.FieldName}')
                     schema['types'].append(TypeDefinition(fdef.FieldType, 'ArrayOf', opts_d2s(newopts), fdef.FieldDesc))
                     # Remove unused FieldOptions
                     del_opt(fdef.FieldOptions, 'maxc')
@@ -110,7 +121,7 @@ def unfold_anonymous_types(schema: dict, sys: str) -> NoReturn:
                     # Move all type options to new type
                     newopts = [fdef.FieldOptions.pop(get_optx(fdef.FieldOptions, o)) for o in fto]
                     name = epname(newopts, sys)              # If enum/pointer option, use derived enum typename
-                    newname = name if name else f'{tdef.TypeName}{sys}{fdef.FieldName}'
+                    newname = name if name else new_typename(schema, f'{tdef.TypeName}{sys}{fdef.FieldName}')
                     if newname not in [t.TypeName for t in schema['types']]:
                         newtype = 'Enumerated' if epx(newopts) is not None else fdef.FieldType
                         assert is_builtin(newtype), f'{newname} ({newtype})'   # Don't create a bad type definition
-- 
2.43.0


From cc56e2a7729a1e10cc438c3e02922f6a3dcca7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:29 +0000
Subject: [PATCH 69/96] fix: order of names reported by analysis depended on
 the string hash seed

---
 distribution/src/jadn/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/core.py b/distribution/src/jadn/core.py
index 1d7dd9d..7dac04a 100644
--- a/distribution/src/jadn/core.py
+++ b/distribution/src/jadn/core.py
@@ -157,8 +157,8 @@ def analyze(schema: dict) -> dict:
     dep_refs = {v for d in items for v in items[d]}
     refs = set(dep_refs) | set(roots)
     return {
-        'unreferenced': list(defs - refs),
-        'undefined': list(refs - defs),
+        'unreferenced': sorted(defs - refs),
+        'undefined': sorted(refs - defs),
         'cycles': [],
     }
 
-- 
2.43.0


From 40eb6c3dcf803858436455ed48c363c1456fdc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:41 +0000
Subject: [PATCH 70/96] fix: infinite number as a field id or tag raised
 OverflowError

---
 distribution/src/jadn/codec/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 4c31495..85aae15 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -115,7 +115,7 @@ def _format_decode(ts: SymbolTableField, val: Any) -> Any:
 def _check_key(ts: SymbolTableField, val):
     try:
         return int(val) if isinstance(next(iter(ts.dMap), ''), int) else val
-    except ValueError:
+    except (ValueError, OverflowError):
         raise_error(f'{ts.TypeDef.TypeName}: {val} is not a valid field ID')
 
 
-- 
2.43.0


From 0bc0bc3697189d2cbe1f59314a33f7a4df4618b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:21 +0000
Subject: [PATCH 71/96] fix: JSON Schema: a maximum size of 0 means the
 configured default, as in Codec

---
 distribution/src/jadn/translate/jsonschema_w.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 6228fe0..6b3e342 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -390,7 +390,7 @@ def w_type(tdef: list, topts: dict, ctx: dict) -> dict:
     """
     Write a JADN type definition in JSON Schema format
     """
-    if 'maxv' not in topts and tdef[BaseType] in CONFIG_MAX:
+    if not topts.get('maxv') and tdef[BaseType] in CONFIG_MAX:   # maximum size 0 means default, as in Codec
         topts['maxv'] = ctx['config'][CONFIG_MAX[tdef[BaseType]]]
     sc = get_writer(tdef[BaseType], ctx['verbose'])(tdef, topts, ctx)
     return sc
-- 
2.43.0


From c9ce94576408eb74ee7dd05cbf52494bb9739f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:33 +0000
Subject: [PATCH 72/96] fix: fluff lost all but the last of the keys with a
 common prefix

---
 distribution/src/jadn/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index 1ac61ba..4832239 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -48,7 +48,10 @@ def fluff(src: dict, sep: str = '.') -> dict:
     :param sep: separator character for keys
     :return: nested dict - e.g., {'a': {'b': {'c': 1, 'd': 2}}}
     """
-    return reduce(dmerge, [hdict(k, v, sep) for k, v in src.items()], {})
+    def merge(a: dict, b: dict) -> dict:
+        return dmerge(a, {k: merge(a[k], v) if isinstance(v, dict) and isinstance(a.get(k), dict) else v for k, v in b.items()})
+
+    return reduce(merge, [hdict(k, v, sep) for k, v in src.items()], {})
 
 
 def flatten(cmd: dict, path: str = '', fc: dict = None, sep: str = '.') -> dict:
-- 
2.43.0


From ca7b1e7641b832fc397f5ad23fd0cfede4766605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:38 +0000
Subject: [PATCH 73/96] fix: flatten used its separator only at the first level

---
 distribution/src/jadn/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index 4832239..d06bba8 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -64,10 +64,10 @@ def flatten(cmd: dict, path: str = '', fc: dict = None, sep: str = '.') -> dict:
     if isinstance(cmd, dict):
         for k, v in cmd.items():
             k = k.split(':')[1] if ':' in k else k
-            fcmd = flatten(v, sep.join((path, k)) if path else k, fcmd)
+            fcmd = flatten(v, sep.join((path, k)) if path else k, fcmd, sep)
     elif isinstance(cmd, list):
         for n, v in enumerate(cmd):
-            fcmd.update(flatten(v, sep.join([path, str(n)])))
+            fcmd.update(flatten(v, sep.join([path, str(n)]), sep=sep))
     else:
         fcmd[path] = cmd
     return fcmd
-- 
2.43.0


From 6849af3417d984010c646f9efe39a2ab37ffa974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:43 +0000
Subject: [PATCH 74/96] fix: dlist changed the dict it was given

---
 distribution/src/jadn/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index d06bba8..6516a84 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -81,8 +81,7 @@ def dlist(src: dict) -> dict:
     :return: {'a': {'b': ['red', 'blue'], 'c': 'foo'}}
     """
     if isinstance(src, dict):
-        for k in src:
-            src[k] = dlist(src[k])
+        src = {k: dlist(v) for k, v in src.items()}
         if set(src) == {str(k) for k in range(len(src))}:
             src = [src[str(k)] for k in range(len(src))]
     return src
-- 
2.43.0


From c14978acad4ffc6fb8273ccd0e14002391a581a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:27 +0000
Subject: [PATCH 75/96] fix: misspelled or malformed options in a type
 definition string were ignored

---
 distribution/src/jadn/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index 6516a84..8ce59b8 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -279,12 +279,14 @@ def typestr2jadn(typestring: str) -> tuple[str, list[str], list]:
             topts.update({'vtype': opts[0]})
         elif tname == 'Choice':
             topts.update({'combine': {'anyOf': 'O', 'allOf': 'A', 'oneOf': 'X'}[opts[0]]})
+        elif '[' not in m.group(3):
+            raise_error(f'TypeString2JADN: unrecognized option "{m.group(3)}" in "{typestring}"')
         else:
             topts.update(topts_s2d([opts[0]]) if ord(opts[0][0]) in TYPE_OPTIONS else {})
             fo += [opts[0]] if ord(opts[0][0]) in FIELD_OPTIONS else []         # TagId option
     if rest := m.group(4):
         for opt in re.findall(p_rangepat, rest):
-            if m := re.match('pattern=\"(.+)\"', opt):
+            if m := re.fullmatch('pattern=\"(.+)\"', opt):
                 topts.update({'pattern': m.group(1)})
             elif len(x := opt.split('..', maxsplit=1)) == 2:
                 a, b = x
@@ -302,6 +304,9 @@ def typestr2jadn(typestring: str) -> tuple[str, list[str], list]:
             topts.update({'format': opt})
         for opt in re.findall(p_kw, rest):
             topts.update({opt: True})
+        rest = re.sub(fr'{p_format}(?!\S)', '', rest, count=1)     # Anything else is an error
+        if rest := re.sub(fr'{p_kw}(?!\S)', '', rest).strip():
+            raise_error(f'TypeString2JADN: unrecognized text "{rest}" in "{typestring}"')
     return tname, opts_d2s(topts), fo
 
 
-- 
2.43.0


From 0b4509ce59b27fd7cde4aad62eda610a1a86bb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:20 +0000
Subject: [PATCH 76/96] fix: JIDL lines that could not be parsed were left out
 of the schema

---
 distribution/src/jadn/convert/jidl.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/distribution/src/jadn/convert/jidl.py b/distribution/src/jadn/convert/jidl.py
index 772d7d8..0216c54 100644
--- a/distribution/src/jadn/convert/jidl.py
+++ b/distribution/src/jadn/convert/jidl.py
@@ -119,6 +119,8 @@ def line2jadn(line: str, tdef: list) -> tuple[str, list]:
                     return 'F', fielddef2jadn(int(m.group(1)), m.group(2), m.group(3), m_range if m_range else '', desc)
         else:
             raise_error(f'JIDL Load - field with no type: {repr(line)}')
+        if line.strip() not in ('{', '}'):      # Type definitions may have braces
+            raise_error(f'JIDL Load - unrecognized line: {repr(line)}')
 
     return '', []
 
-- 
2.43.0


From 6a5f6272f9ac6f3de4218d2ac0e9eea95814c5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:01 +0000
Subject: [PATCH 77/96] fix: write diagram files in UTF-8 whatever the locale

---
 distribution/src/jadn/convert/diagram_w.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/convert/diagram_w.py b/distribution/src/jadn/convert/diagram_w.py
index 98ba235..55c4229 100644
--- a/distribution/src/jadn/convert/diagram_w.py
+++ b/distribution/src/jadn/convert/diagram_w.py
@@ -184,7 +184,7 @@ def diagram_dumps(schema: dict, style: dict = {}) -> str:
 
 
 def diagram_dump(schema: dict, fname: str, source: str = '', style: dict = {}) -> None:
-    with open(fname, 'w') as f:
+    with open(fname, 'w', encoding='utf8') as f:
         if source:
             f.write(f'\' Generated from {source}, {datetime.ctime(datetime.now())}"\n\n')
         f.write(diagram_dumps(schema, style) + '\n')
-- 
2.43.0


From 30f727abd7c58c19761ec2097060da77ebf7a1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:01 +0000
Subject: [PATCH 78/96] fix: top level of JSON Schema lost roots whose names
 differ in case only

---
 distribution/src/jadn/translate/jsonschema_w.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 6b3e342..019b204 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -147,10 +147,12 @@ def w_export(exp: list, ctx: dict) -> dict:
     """
     if len(exp) == 1:
         return {'$ref': f'#/definitions/{exp[0]}'}
+    names = {t: fieldname(t) for t in exp}
+    same = {n for n in names.values() if list(names.values()).count(n) > 1}     # Use TypeName for these
     return {
         'type': 'object',
         'additionalProperties': False,
-        'properties': {fieldname(ctx['type_defs'][t][TypeName]): {'$ref': f'#/definitions/{t}'} for t in exp}
+        'properties': {t if n in same else n: {'$ref': f'#/definitions/{t}'} for t, n in names.items()}
     }
 
 
-- 
2.43.0


From 147dd5261fb849ffc9075ae713656ed1fddbbf47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:39 +0000
Subject: [PATCH 79/96] fix: asterisks of a type definition in a one-row
 Markdown table are escaped

---
 distribution/src/jadn/convert/markdown.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/convert/markdown.py b/distribution/src/jadn/convert/markdown.py
index 975efe2..c67ae7b 100644
--- a/distribution/src/jadn/convert/markdown.py
+++ b/distribution/src/jadn/convert/markdown.py
@@ -78,7 +78,7 @@ def markdown_dumps(schema: dict, style: dict = None) -> str:
                     table.append([str(fd[FieldID]), f'**{fname}**', fdef, fmult, fdesc])
         else:
             table = [['Type Name', 'Type Definition', 'Description'],
-                     [f'**{td[TypeName]}**', jadn2typestr(td[BaseType], td[TypeOptions]), td[TypeDesc]]]
+                     [f'**{td[TypeName]}**', jadn2typestr(td[BaseType], td[TypeOptions]).replace('*', '\*'), td[TypeDesc]]]
         text += f'\n{format_table(table)}\n\n**********\n'
     return text
 
-- 
2.43.0


From 287cc80e5704ac5d3699ac07146ec757ccdfe40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:54 +0000
Subject: [PATCH 80/96] fix: codec replaced the options of any type named
 TypeRef with the metaschema's type name pattern

---
 distribution/src/jadn/codec/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/__init__.py b/distribution/src/jadn/codec/__init__.py
index da0cc83..13dc048 100644
--- a/distribution/src/jadn/codec/__init__.py
+++ b/distribution/src/jadn/codec/__init__.py
@@ -140,7 +140,7 @@ class Codec:
         self.verbose_rec = verbose_rec
         self.verbose_str = verbose_str
         self.symtab = {t.TypeName: sym(t) for t in object_types(self.schema['types'])}
-        if 'TypeRef' in self.types:
+        if (t := self.types.get('TypeRef')) and t.BaseType == 'String' and not t.TypeOptions:   # Metaschema type
             self.symtab['TypeRef'].TypeOpts = make_typeref_pattern(self.config['$NSID'], self.config['$TypeName'])
         for t in PRIMITIVE_TYPES:
             self.symtab[t] = SymbolTableField(
-- 
2.43.0


From ad57a152fad9e847962f492b82c4beec7512895a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:36 +0000
Subject: [PATCH 81/96] fix: codec refused a valid schema with a pattern that
 starts with $

---
 distribution/src/jadn/codec/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/__init__.py b/distribution/src/jadn/codec/__init__.py
index 13dc048..cd19990 100644
--- a/distribution/src/jadn/codec/__init__.py
+++ b/distribution/src/jadn/codec/__init__.py
@@ -94,7 +94,7 @@ class Codec:
 
         # Set configurable option values
         def config_opts(opts: List[str]) -> dict:
-            op = [(v[0] + self.config[v[1:]]) if len(v) > 1 and v[1] == '$' else v for v in opts]
+            op = [(v[0] + self.config.get(v[1:], v[1:])) if len(v) > 1 and v[1] == '$' else v for v in opts]
             return topts_s2d(op)
 
         def sym(t: TypeDefinition) -> SymbolTableField:  # Build symbol table based on encoding modes
-- 
2.43.0


From 29dfe1f9dbfeb0ecaabb3eda5bb91e858d7d0f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 82/96] fix: deleting a column of a definition resets it to its
 default

---
 distribution/src/jadn/definitions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/definitions.py b/distribution/src/jadn/definitions.py
index b07ebd9..350a429 100644
--- a/distribution/src/jadn/definitions.py
+++ b/distribution/src/jadn/definitions.py
@@ -51,7 +51,7 @@ class BasicDataclass:
     def __delitem__(self, key: Union[int, str]):
         if isinstance(key, int):
             key = list(self.__keyindex__)[key]
-        object.__setattr__(self, self.__default__[key], self.__default__[key])
+        object.__setattr__(self, key, deepcopy(self.__default__[key]))
 
     def __len__(self):
         return len(self.__keyindex__)
-- 
2.43.0


From fe149146ac471e76ab244a9c4a1b7207f82a12fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:41 +0000
Subject: [PATCH 83/96] fix: decode refuses field ids that are not canonical
 integers or occur twice

---
 distribution/src/jadn/codec/codec.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 85aae15..266471d 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -113,10 +113,11 @@ def _format_decode(ts: SymbolTableField, val: Any) -> Any:
 
 
 def _check_key(ts: SymbolTableField, val):
-    try:
-        return int(val) if isinstance(next(iter(ts.dMap), ''), int) else val
-    except (ValueError, OverflowError):
-        raise_error(f'{ts.TypeDef.TypeName}: {val} is not a valid field ID')
+    if isinstance(val, str) and isinstance(next(iter(ts.dMap), ''), int):   # JSON object keys are always strings
+        if not re.fullmatch(r'0|-?[1-9][0-9]*', val):
+            raise_error(f'{ts.TypeDef.TypeName}: {val} is not a valid field ID')
+        return int(val)
+    return val
 
 
 def _check_pattern(ts: SymbolTableField, val):
@@ -380,6 +381,8 @@ def _decode_maprec(ts: SymbolTableField, sval, codec: 'Codec'):
     val = sval
     if ts.EncType == dict:
         val = {_check_key(ts, k): v for k, v in sval.items()}
+        if len(val) != len(sval):
+            _bad_value(ts, sval)
     aval = dict()
     fx = _field_key(ts, codec)
     fnames = list(ts.Fld)
-- 
2.43.0


From 8e01e278224ad507ce84c38e517fb7c03c518c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:46 +0000
Subject: [PATCH 84/96] fix: decode of a unique list compares values, not their
 text

---
 distribution/src/jadn/codec/codec.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 266471d..9069aea 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -495,10 +495,11 @@ def _encode_array_of(ts: SymbolTableField, val, codec: 'Codec'):
 def _decode_array_of(ts: SymbolTableField, val, codec: 'Codec'):
     _check_type(ts, val, list)
     _check_size(ts, val)
-    if 'set' in ts.TypeOpts or 'unique' in ts.TypeOpts:
-        if len(val) != len({fset(v) for v in val}):
+    aval = [codec.decode(ts.TypeOpts['vtype'], v) for v in val]
+    if 'set' in ts.TypeOpts or 'unique' in ts.TypeOpts:     # Different text can have the same value
+        if len(aval) != len({fset(v) for v in aval}):
             _bad_value(ts, val)
-    return [codec.decode(ts.TypeOpts['vtype'], v) for v in val]
+    return aval
 
 
 def _encode_map_of(ts: SymbolTableField, aval, codec: 'Codec'):
-- 
2.43.0


From e1f094574f939ae9ad3c05e04c8181a7e702e64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:03 +0000
Subject: [PATCH 85/96] fix: decode map keys of Number, Boolean and union types

---
 distribution/src/jadn/codec/codec.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 9069aea..189d216 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -1,3 +1,4 @@
+import json
 import numbers
 import re
 # import regex as re    # install from PyPI
@@ -513,15 +514,19 @@ def _decode_map_of(ts: SymbolTableField, sval, codec: 'Codec'):
     _check_type(ts, sval, dict)
     _check_size(ts, sval)
     to = ts.TypeOpts
-    return {_decode_map_key(to['ktype'], k, codec): codec.decode(to['vtype'], v) for k, v in sval.items()}
+    aval = {_decode_map_key(to['ktype'], k, codec): codec.decode(to['vtype'], v) for k, v in sval.items()}
+    if len(aval) != len(sval):      # Different text can have the same value
+        _bad_value(ts, sval)
+    return aval
 
 
 def _decode_map_key(ktype: str, sval, codec: 'Codec'):
-    kts = codec.symtab.get(ktype)
-    if isinstance(sval, str) and kts and kts.EncType is int and re.match(r'^-?\d+$', sval):
-        if kts.FormatDecode is _format_pass:    # JSON object keys are always strings
-            sval = int(sval)
-    return codec.decode(ktype, sval)
+    try:
+        return codec.decode(ktype, sval)
+    except (ValueError, TypeError):     # JSON object keys are always strings, including those of numbers and booleans
+        if not isinstance(sval, str) or not re.fullmatch(r'true|false|-?[0-9]+(\.[0-9]+)?([eE][-+]?[0-9]+)?', sval):
+            raise
+    return codec.decode(ktype, json.loads(sval))
 
 
 enctab: Dict[str, CodecTableField] = {  # decode, encode, min encoded type
-- 
2.43.0


From 90882ec85ad8d3067764b10c115f7f08a305e632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:37 +0000
Subject: [PATCH 86/96] fix: JSON Schema of maps with Number, Boolean and union
 keys

---
 .../src/jadn/translate/jsonschema_w.py        | 29 ++++++++++++-------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 019b204..c9a2705 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -50,14 +50,6 @@ def base_type(stype: str, ctx: dict) -> str:
     return ctx['type_defs'][stype][BaseType] if stype in ctx['type_defs'] else stype
 
 
-def is_datetime(stype: str, ctx: dict) -> bool:
-    """
-    return True if values of a defined Integer type are serialized as date-time strings
-    """
-    td = ctx['type_defs'].get(stype)
-    return td is not None and topts_s2d(td[TypeOptions]).get('format') == 'datetime-ms'
-
-
 def get_items(stype: str, ctx: dict) -> Optional[list]:
     """
     return enumerated item names if stype is Enumerated or derived enum
@@ -124,6 +116,23 @@ def w_kvtype(stype: str, ctx: dict) -> dict:
     return w_ref(stype, ctx)
 
 
+def w_keytype(stype: str, ktype: dict, ctx: dict) -> dict:
+    """
+    Make property names from type of keys: JSON object keys are always strings
+    """
+    td = ctx['type_defs'].get(stype, ['', stype, []])
+    topts = topts_s2d(td[TypeOptions])
+    if td[BaseType] == 'Integer' and topts.get('format') != 'datetime-ms':
+        return {'pattern': '^-?[0-9]+$'}
+    if td[BaseType] == 'Number':
+        return {'pattern': r'^-?[0-9]+(\.[0-9]+)?([eE][-+]?[0-9]+)?$'}
+    if td[BaseType] == 'Boolean':
+        return {'enum': ['true', 'false']}
+    if td[BaseType] == 'Choice':        # Union, its alternatives may be of any of these types
+        return {}
+    return ktype
+
+
 def w_enum(fields: list, vcol: int, dcol: int, idopt: bool, ctx: dict) -> dict:
     def fdesc(fld: list, desc: str, idopt: bool) -> str:
         """
@@ -351,10 +360,8 @@ def t_map_of(tdef: list, topts: dict, ctx: dict) -> dict:
     keys = {}
     if items := get_items(topts['ktype'], ctx):     # MapOf enumerated key is shortcut for Map
         keys = {'additionalProperties': False, 'required': items, 'properties': {i: vtype for i in items}}
-    elif base_type(topts['ktype'], ctx) == 'Integer' and not is_datetime(topts['ktype'], ctx):
-        keys = {'additionalProperties': vtype, 'propertyNames': {'pattern': '^-?[0-9]+$'}}
     else:
-        keys = {'additionalProperties': vtype, 'propertyNames': ktype}
+        keys = {'additionalProperties': vtype, 'propertyNames': w_keytype(topts['ktype'], ktype, ctx)}
 
     return dmerge(
         w_td('object', tdef[TypeDesc]),
-- 
2.43.0


From dcfe42fc11e94dd3006756298c5491609a2a4f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:52 +0000
Subject: [PATCH 87/96] fix: JSON Schema of set lists requires unique items

---
 distribution/src/jadn/translate/jsonschema_w.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index c9a2705..d1c5c3d 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -335,7 +335,7 @@ def t_array(tdef: list, topts: dict, ctx: dict) -> dict:
 def t_array_of(tdef: list, topts: dict, ctx: dict) -> dict:
     return dmerge(
         w_td('array', tdef[TypeDesc]),
-        {'uniqueItems': True} if 'unique' in topts else {},
+        {'uniqueItems': True} if 'unique' in topts or 'set' in topts else {},
         {'minItems': topts['minv']} if topts.get('minv', 0) != 0 else {},
         {'maxItems': topts['maxv']} if 'maxv' in topts else {},
         {'items': w_kvtype(topts['vtype'], ctx)}
-- 
2.43.0


From e898bfb08aea407dfc954f0137e6790f308e834f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:01 +0000
Subject: [PATCH 88/96] fix: resolved schema does not share its information
 with the root schema

---
 distribution/src/jadn/transform/resolve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/transform/resolve.py b/distribution/src/jadn/transform/resolve.py
index e6693cc..c619d51 100644
--- a/distribution/src/jadn/transform/resolve.py
+++ b/distribution/src/jadn/transform/resolve.py
@@ -179,7 +179,7 @@ def resolve_imports(schema: dict, dirname: str, no_nsid: tuple[str, ...] = ()):
 
     # Copy all needed types from other packages into root
     nsids[root.package] = ['']
-    sc = {'info': {k: v for k, v in root.schema['info'].items() if k != 'namespaces'}, 'types': []}    # Remove namespaces
+    sc = {'info': {k: copy.deepcopy(v) for k, v in root.schema['info'].items() if k != 'namespaces'}, 'types': []}    # Remove namespaces
     for sm in [root] + [m for m in packages.values() if m.package != root.package]:
         sc['types'] += [merge_typedef(t, sm.package, sm.namespaces, nsids, sys) for t in sm.schema['types'] if t[TypeName] in sm.used]
     return sc
-- 
2.43.0


From 6c712a57a9128bbaa557e4b8f6adaa4b0253087d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:05 +0000
Subject: [PATCH 89/96] fix: sort types with long dependency chains

---
 distribution/src/jadn/utils.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index 8ce59b8..12a7219 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -126,11 +126,17 @@ def topo_sort(deps: dict[str, list[str]], roots: list[str]) -> list[str]:
     visited: set[str] = set()
 
     def walk_tree(it: str) -> None:     # Put each item in front of all of its dependencies
-        if it not in visited:
-            visited.add(it)
-            for i in reversed(deps.get(it, [])):
-                walk_tree(i)
-            out.insert(0, it)
+        path = [(None, iter([it]))]     # Items being walked, with their remaining dependencies
+        while path:
+            parent, items = path[-1]
+            i = next((i for i in items if i not in visited), None)
+            if i is not None:
+                visited.add(i)
+                path.append((i, iter(list(reversed(deps.get(i, []))))))
+            else:
+                path.pop()
+                if path:
+                    out.insert(0, parent)
 
     for item in reversed(list(roots)):
         walk_tree(item)
-- 
2.43.0


From 2e3b55ecd029579051777842100ae86eb890d88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:09 +0000
Subject: [PATCH 90/96] fix: resolve imports with long reference chains

---
 distribution/src/jadn/transform/resolve.py | 41 ++++++++++++----------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/distribution/src/jadn/transform/resolve.py b/distribution/src/jadn/transform/resolve.py
index c619d51..c8a1484 100644
--- a/distribution/src/jadn/transform/resolve.py
+++ b/distribution/src/jadn/transform/resolve.py
@@ -113,28 +113,33 @@ def make_enum(sm: SchemaPackage, tname: str, sys: str = '$') -> bool:
 
 # add referenced typenames in this package to used list
 def add_types(sm: SchemaPackage, tname: str, sys: str = '$') -> None:
-    if {tname} - sm.used:
-        sm.add_used(tname)
-        try:
-            for tn in sm.deps[tname]:
-                add_types(sm, tn, sys)
-        except KeyError as e:
-            if not make_enum(sm, tname, sys):
-                raise_error(f'Resolve: {e} not defined in {sm.package} ({sm.source})')
+    todo = [tname]      # A list instead of recursion, dependency chains may be long
+    while todo:
+        tname = todo.pop()
+        if {tname} - sm.used:
+            sm.add_used(tname)
+            try:
+                todo += reversed(list(sm.deps[tname]))
+            except KeyError as e:
+                if not make_enum(sm, tname, sys):
+                    raise_error(f'Resolve: {e} not defined in {sm.package} ({sm.source})')
 
 
 # add referenced types from other packages to used list
 def resolve(sm: SchemaPackage, types: set[str], packages: dict, sys: str = '$') -> None:
-    if set(types) - sm.used:
-        sm.load()
-        for tn in types:
-            add_types(sm, tn, sys)
-        for pkg in sm.refs:
-            if pkg in packages:
-                print(f'  Resolve {pkg} into {sm.package}')
-                resolve(packages[pkg], {t for k, v in sm.refs[pkg].items() if k in sm.used for t in v}, packages)
-            else:
-                print(f'* Resolve: package {pkg} not found.')
+    todo = [(sm, types)]
+    while todo:
+        sm, types = todo.pop()
+        if set(types) - sm.used:
+            sm.load()
+            for tn in types:
+                add_types(sm, tn, sys)
+            for pkg in sm.refs:
+                if pkg in packages:
+                    print(f'  Resolve {pkg} into {sm.package}')
+                    todo.append((packages[pkg], {t for k, v in sm.refs[pkg].items() if k in sm.used for t in v}))
+                else:
+                    print(f'* Resolve: package {pkg} not found.')
 
 
 # Add referenced types to schema. dirname => other schema files
-- 
2.43.0


From 1cde4ba138a094f1a6011d58f43eac6b4f02c5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:14 +0000
Subject: [PATCH 91/96] fix: prefix lengths of network addresses are decimal
 digits only

---
 distribution/src/jadn/codec/format_serialize_json.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/codec/format_serialize_json.py b/distribution/src/jadn/codec/format_serialize_json.py
index 430db9d..0344fdf 100644
--- a/distribution/src/jadn/codec/format_serialize_json.py
+++ b/distribution/src/jadn/codec/format_serialize_json.py
@@ -129,10 +129,16 @@ def a2s_ipv6_net(aval: [str, int]) -> str:
     return f'{sa}/{aval[1]}' if aval[1] != 128 else sa
 
 
+def s2i_prefix(s: str) -> int:      # Convert prefix length: decimal digits only
+    if not re.fullmatch(r'[0-9]+', s):
+        raise ValueError
+    return int(s)
+
+
 def s2a_ipv4_net(sval: str) -> [str, int]:
     sv = sval.split('/', 1)
     sa = s2b_ipv4_addr(sv[0])                  # Convert type-specific string to Binary bytes
-    prefix_len = int(sv[1]) if len(sv) > 1 else 32
+    prefix_len = s2i_prefix(sv[1]) if len(sv) > 1 else 32
     if prefix_len < 0 or prefix_len > 32:
         raise ValueError
     return [sa, prefix_len]
@@ -141,7 +147,7 @@ def s2a_ipv4_net(sval: str) -> [str, int]:
 def s2a_ipv6_net(sval: str) -> [str, int]:
     sv = sval.split('/', 1)
     sa = s2b_ipv6_addr(sv[0])                  # Convert type-specific string to Binary bytes
-    prefix_len = int(sv[1]) if len(sv) > 1 else 128
+    prefix_len = s2i_prefix(sv[1]) if len(sv) > 1 else 128
     if prefix_len < 0 or prefix_len > 128:
         raise ValueError
     return [sa, prefix_len]
-- 
2.43.0


From b896f97cbba05137a61707905ab29c89547c3886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:20 +0000
Subject: [PATCH 92/96] fix: booleans are not duplicates of the numbers 0 and 1
 in unique lists

---
 distribution/src/jadn/codec/codec.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 189d216..cf75e7b 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -63,6 +63,8 @@ def fset(x):
         return frozendict({k: fset(v) for k, v in x.items()})
     if isinstance(x, (tuple, list)):
         return tuple(fset(v) for v in x)
+    if isinstance(x, bool):             # Python equates booleans with the numbers 0 and 1
+        return bool, x
     return frozenset(x) if isinstance(x, set) else x
 
 
-- 
2.43.0


From eb983e6dda4aec4df21b7d893b7dcada4bc01c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:28 +0000
Subject: [PATCH 93/96] fix: enumerations derived from a derived enumeration
 have its items in any order of definitions

---
 distribution/src/jadn/transform/transform.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index 36941bc..2f1ab5d 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -148,6 +148,7 @@ def unfold_derived_enum(schema: dict, sys: str) -> NoReturn:
     def enum_items(rtype: str) -> list:
         tdef = schema['types'][typex[rtype]]
         if tdef.BaseType == 'Enumerated':
+            derive_items(tdef)          # Source may itself be a derived enumeration that is defined later
             return [[f.ItemID, f.ItemValue, f.ItemDesc] for f in tdef.Fields]
         fields = tdef.Fields if has_fields(tdef.BaseType) else []
         return [[f.FieldID, f.FieldName, f.FieldDesc] for f in fields]
@@ -164,17 +165,20 @@ def unfold_derived_enum(schema: dict, sys: str) -> NoReturn:
                         yield [base + f.FieldName, f.FieldDesc]
         return [[n+1] + f for n, f in enumerate(pathnames(rtype))]
 
+    def derive_items(tdef: TypeDefinition) -> NoReturn:     # Replace enum/pointer option with explicit items
+        if (optx := epx(tdef.TypeOptions)) is not None:
+            opt = tdef.TypeOptions.pop(optx)
+            items = enum_items if opt[:1] == OPTION_ID['enum'] else pointer_items
+            tdef.Fields = [EnumFieldDefinition(*f) for f in items(opt[1:])]
+
     enums = {}
     for tdef in list(schema['types']):  # Replace enum/pointer options in Enumerated types with explicit items
         if tdef.BaseType == 'Enumerated':
-            to = tdef.TypeOptions
-            if rname := epname(to, sys):
-                optx = get_optx(to, 'enum')
-                optx = optx if optx is not None else get_optx(to, 'pointer')
-                items = enum_items if to[optx][:1] == OPTION_ID['enum'] else pointer_items
-                tdef.Fields = [EnumFieldDefinition(*f) for f in items(to[optx][1:])]
-                del to[optx]
+            if rname := epname(tdef.TypeOptions, sys):
                 enums.update({rname: tdef.TypeName})
+    for tdef in list(schema['types']):
+        if tdef.BaseType == 'Enumerated':
+            derive_items(tdef)
 
     # Create new Enumerated enum/pointer types if they don't already exist
     for tdef in list(schema['types']):
-- 
2.43.0


From cee1e180a38f67f2598e0e76f7eb45fb32654f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:34 +0000
Subject: [PATCH 94/96] fix: links to a MapOf with a derived enum as key refer
 to that enum

---
 distribution/src/jadn/transform/transform.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index 2f1ab5d..fc97532 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -64,6 +64,9 @@ def unfold_link(schema: dict, sys: str) -> NoReturn:
                     fdef.FieldType = keys[fdef.FieldType]
                 except KeyError:
                     raise_error(f'{tdef.TypeName}/{fdef.FieldName}: "{fdef.FieldType}" has no primary key')
+                if epx([fdef.FieldType]) is not None:       # Key type is a derived enum
+                    fdef.FieldOptions.append(fdef.FieldType)
+                    fdef.FieldType = 'Enumerated'
 
 
 # Return option array index of enum or pointer option
-- 
2.43.0


From 063ff55752f9a5ae28c720165382263460d4f064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:39 +0000
Subject: [PATCH 95/96] fix: links to a MapOf are resolved before it is
 replaced by a Map

---
 distribution/src/jadn/transform/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index fc97532..a679aa3 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -218,7 +218,7 @@ def unfold_extensions(schema: dict, extensions: Set[str] = None) -> dict:  # Rem
     sys = '$'  # Character reserved for tool-generated TypeNames
     sc = object_type_schema(copy.deepcopy(schema))  # Don't modify original schema
 
-    if 'Link' in extensions:                    # Replace Key and Link options with explicit types
+    if 'Link' in extensions or 'MapOfEnum' in extensions:   # Replace Key and Link options with explicit types
         unfold_link(sc, sys)
     if 'Multiplicity' in extensions or 'AnonymousType' in extensions:   # Expand repeated types into ArrayOf defintions
         unfold_multiplicity(sc, sys)
-- 
2.43.0


From 4743f5d91e9855d9b5422b155d36b5c22df93169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:01 +0000
Subject: [PATCH 96/96] fix: unfolding a schema whose definitions share an
 option list changes the other definitions

---
 distribution/src/jadn/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index 12a7219..f169fbd 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -474,10 +474,13 @@ def object_types(types: list[list]) -> list[TypeDefinition]:
     rtn_types: list[TypeDefinition] = []
     for t in types:
         t = TypeDefinition(*t)
+        t.TypeOptions = list(t.TypeOptions)         # Option lists can be edited in place: never share one
         if t.BaseType == 'Enumerated':
             t.Fields = [EnumFieldDefinition(*f) for f in t.Fields]
         else:
             t.Fields = [GenFieldDefinition(*f) for f in t.Fields]
+            for f in t.Fields:
+                f.FieldOptions = list(f.FieldOptions)
         rtn_types.append(t)
     return rtn_types
 
-- 
2.43.0

