From fd51d4575be144d2715310f08a4f5eaeb4c7612b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:53 +0000
Subject: [PATCH 01/77] fix: read records with an empty payload

read_record() raised Eof for a record whose payload size is zero, although
such records are valid (e.g. a control without attributes).
---
 src/hwp5/recordstream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/recordstream.py b/src/hwp5/recordstream.py
index 2970c28..a9a8a22 100644
--- a/src/hwp5/recordstream.py
+++ b/src/hwp5/recordstream.py
@@ -78,7 +78,7 @@ def read_record(f, seqno):
     if header is None:
         return
     tagid, level, size = header
-    payload = dataio.readn(f, size)
+    payload = dataio.readn(f, size) if size > 0 else b''
     return Record(tagid, level, payload, size, seqno)
 
 
-- 
2.43.0


From 45417c24dad96fb54a312c670e2fc082034e4def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:04 +0000
Subject: [PATCH 02/77] fix: read binary standard input in hwp5proc records

On Python 3 sys.stdin is a text stream, so 'hwp5proc records < stream'
failed with a TypeError.
---
 src/hwp5/proc/records.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/proc/records.py b/src/hwp5/proc/records.py
index 3d9efdb..cf257e4 100644
--- a/src/hwp5/proc/records.py
+++ b/src/hwp5/proc/records.py
@@ -34,9 +34,11 @@ PY2 = sys.version_info.major == 2
 
 def main(args):
     if PY2:
+        stdin_binary = sys.stdin
         stdout_text = sys.stdout
         stdout_binary = sys.stdout
     else:
+        stdin_binary = sys.stdin.buffer
         stdout_text = sys.stdout
         stdout_binary = sys.stdout.buffer
 
@@ -47,7 +49,7 @@ def main(args):
         streamname = args.record_stream
         stream = parse_recordstream_name(hwpfile, streamname)
     else:
-        stream = RecordStream(Open2Stream(lambda: sys.stdin), None)
+        stream = RecordStream(Open2Stream(lambda: stdin_binary), None)
 
     opts = dict()
     rng = args.range
-- 
2.43.0


From d8320e7675a5fc06150b0a569cfd883b97400d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:16 +0000
Subject: [PATCH 03/77] fix: an out-of-range tree group selects no records

RecordStream.records(treegroup=N) returned None instead of an empty
selection, so 'hwp5proc records --treegroup' died with a TypeError.
---
 src/hwp5/recordstream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/recordstream.py b/src/hwp5/recordstream.py
index a9a8a22..e4c0b38 100644
--- a/src/hwp5/recordstream.py
+++ b/src/hwp5/recordstream.py
@@ -160,7 +160,7 @@ class RecordStream(filestructure.VersionSensitiveItem):
             records = islice(records, range[0], range[1])
         elif 'treegroup' in kwargs:
             groups = group_records_by_toplevel(records, group_as_list=True)
-            records = nth(groups, kwargs['treegroup'])
+            records = nth(groups, kwargs['treegroup'], [])
         return records
 
     def record(self, idx):
-- 
2.43.0


From 71dde4e6f509986d886fadd22e831f1a2d46cdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:16 +0000
Subject: [PATCH 04/77] fix: generate a valid JSON array for no items

---
 src/hwp5/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hwp5/utils.py b/src/hwp5/utils.py
index 83138f9..fdc1e35 100644
--- a/src/hwp5/utils.py
+++ b/src/hwp5/utils.py
@@ -71,6 +71,8 @@ def generate_json_array(tokens):
         else:
             yield ',\n'
         yield token
+    if first:
+        yield '['
     yield '\n]'
 
 
-- 
2.43.0


From 78ceefb20a808a107afccb79ec39abe57b605d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:02 +0000
Subject: [PATCH 05/77] fix: models of an out-of-range tree group are empty

'hwp5proc models --treegroup' died with a TypeError because
records_treegroup() returned None for a group beyond the end.
---
 src/hwp5/recordstream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/recordstream.py b/src/hwp5/recordstream.py
index e4c0b38..500fe3f 100644
--- a/src/hwp5/recordstream.py
+++ b/src/hwp5/recordstream.py
@@ -180,7 +180,7 @@ class RecordStream(filestructure.VersionSensitiveItem):
     def records_treegroup(self, n):
         ''' returns list of records in `n'th top-level tree '''
         groups = self.records_treegrouped()
-        return nth(groups, n)
+        return nth(groups, n, [])
 
     def other_formats(self):
         return {'.records': self.records_json().open}
-- 
2.43.0


From 9a4dcaeb77b909d8b938b41a2cb597f706e4c393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:02 +0000
Subject: [PATCH 06/77] fix: partially consumed lazy tree groups

When the caller did not exhaust a lazily generated group, the following
groups were lost (or the same group was generated forever).
---
 src/hwp5/recordstream.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hwp5/recordstream.py b/src/hwp5/recordstream.py
index 500fe3f..d4c5ed4 100644
--- a/src/hwp5/recordstream.py
+++ b/src/hwp5/recordstream.py
@@ -149,6 +149,10 @@ def group_records_by_toplevel(records, group_as_list=True):
         if group_as_list:
             group = list(group)
         yield group
+        if not group_as_list:
+            # skip what the caller left in the group
+            for _ in group:
+                pass
 
 
 class RecordStream(filestructure.VersionSensitiveItem):
-- 
2.43.0


From 5ba5bd9fee2e574633236f2286a153a46de47a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:34 +0000
Subject: [PATCH 07/77] fix: sized reads of generated streams

GeneratorReader and GeneratorTextReader returned more than requested when
the buffer still held data at the end of the generator, and read(-1)
dropped the last character instead of reading everything.
---
 src/hwp5/utils.py | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/src/hwp5/utils.py b/src/hwp5/utils.py
index fdc1e35..a751c09 100644
--- a/src/hwp5/utils.py
+++ b/src/hwp5/utils.py
@@ -165,19 +165,17 @@ class GeneratorReader(object):
         self.buffer = b''
 
     def read(self, size=None):
-        if size is None:
+        if size is None or size < 0:
             d, self.buffer = self.buffer, b''
             return d + b''.join(self.gen)
 
-        for data in self.gen:
-            self.buffer += data
-            bufsize = len(self.buffer)
-            if bufsize >= size:
-                size = min(bufsize, size)
-                d, self.buffer = self.buffer[:size], self.buffer[size:]
-                return d
+        while len(self.buffer) < size:
+            try:
+                self.buffer += next(self.gen)
+            except StopIteration:
+                break
 
-        d, self.buffer = self.buffer, b''
+        d, self.buffer = self.buffer[:size], self.buffer[size:]
         return d
 
     def close(self):
@@ -201,21 +199,18 @@ class GeneratorTextReader(object):
         self.buffer = ''
 
     def read(self, size=None):
-        if size is None:
+        if size is None or size < 0:
             d = self.buffer
             self.buffer = ''
             return d + ''.join(self.gen)
 
-        for data in self.gen:
-            self.buffer += data
-            bufsize = len(self.buffer)
-            if bufsize >= size:
-                size = min(bufsize, size)
-                d, self.buffer = self.buffer[:size], self.buffer[size:]
-                return d
+        while len(self.buffer) < size:
+            try:
+                self.buffer += next(self.gen)
+            except StopIteration:
+                break
 
-        d = self.buffer
-        self.buffer = ''
+        d, self.buffer = self.buffer[:size], self.buffer[size:]
         return d
 
     def close(self):
-- 
2.43.0


From 4ba925c0fa635949908cd27fbadc48c10bfe52b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:58 +0000
Subject: [PATCH 08/77] fix: raw-deflate incremental encoder

The zlib header was stripped from the output of the first call only if that
call happened to return it, and not at all after reset().
---
 src/hwp5/zlib_raw_codec.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/hwp5/zlib_raw_codec.py b/src/hwp5/zlib_raw_codec.py
index a34b19f..75c7e50 100644
--- a/src/hwp5/zlib_raw_codec.py
+++ b/src/hwp5/zlib_raw_codec.py
@@ -50,20 +50,17 @@ class IncrementalEncoder(codecs.IncrementalEncoder):
     def __init__(self, errors='strict'):
         assert errors == 'strict'
         self.errors = errors
-        self.compressobj = zlib.compressobj()
-        self.initial = True
+        self.reset()
 
     def encode(self, input, final=False):
         c = self.compressobj.compress(input)
-        if self.initial:
-            c = c[2:]
-            self.initial = False
         if final:
-            c += self.compressobj.flush()[:-4]
+            c += self.compressobj.flush()
         return c
 
     def reset(self):
-        self.compressobj = zlib.compressobj()
+        self.compressobj = zlib.compressobj(zlib.Z_DEFAULT_COMPRESSION,
+                                            zlib.DEFLATED, _wbits)
 
 
 class IncrementalDecoder(codecs.IncrementalDecoder):
-- 
2.43.0


From 65f340e324cdb075b772bce3302fcde597267520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:16 +0000
Subject: [PATCH 09/77] fix: raw-deflate StreamReader returned short reads

Any non-empty chunk was taken for the last one, so a read larger than one
buffer was cut short and the decoder was finished in the middle of the
data.
---
 src/hwp5/zlib_raw_codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/zlib_raw_codec.py b/src/hwp5/zlib_raw_codec.py
index 75c7e50..8c987bb 100644
--- a/src/hwp5/zlib_raw_codec.py
+++ b/src/hwp5/zlib_raw_codec.py
@@ -124,7 +124,7 @@ class StreamReader(object):
                 return d
 
             c = self.stream.read(8196)
-            final = len(c) < 8196 or len(c)
+            final = len(c) < 8196
             self.buffer += self.decoder.decode(c, final)
 
     def tell(self):
-- 
2.43.0


From c0cdc780d0ff69531f734c0a26029f7b3f277f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:27 +0000
Subject: [PATCH 10/77] fix: truncated data must not yield short values

readn() returned fewer bytes than requested at the end of the data, so a
fixed-size value was silently shortened and a truncated record header ended
in a struct.error; on the other hand a record whose whole payload was cut
off raised an uncaught Eof.  readn() now raises Eof for any short read and
read_record() keeps what is left of the payload of the last record.
---
 src/hwp5/dataio.py       | 2 +-
 src/hwp5/recordstream.py | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/hwp5/dataio.py b/src/hwp5/dataio.py
index b8b1a98..619f6a8 100644
--- a/src/hwp5/dataio.py
+++ b/src/hwp5/dataio.py
@@ -54,7 +54,7 @@ class OutOfData(Exception):
 def readn(f, size):
     data = f.read(size)
     datasize = len(data)
-    if datasize == 0:
+    if datasize < size:
         try:
             pos = f.tell()
         except IOError:
diff --git a/src/hwp5/recordstream.py b/src/hwp5/recordstream.py
index d4c5ed4..2605983 100644
--- a/src/hwp5/recordstream.py
+++ b/src/hwp5/recordstream.py
@@ -23,7 +23,6 @@ from itertools import islice
 import json
 import struct
 
-from . import dataio
 from . import filestructure
 from .dataio import dumpbytes
 from .dataio import Eof
@@ -78,7 +77,7 @@ def read_record(f, seqno):
     if header is None:
         return
     tagid, level, size = header
-    payload = dataio.readn(f, size) if size > 0 else b''
+    payload = f.read(size)
     return Record(tagid, level, payload, size, seqno)
 
 
-- 
2.43.0


From 1b3d611e2da0d9ad139381d6d1a95707ef949e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:27 +0000
Subject: [PATCH 11/77] fix: report missing flags as a parse error

When the data ended in front of a bit field, KeyError('value') escaped
instead of the ParseError.
---
 src/hwp5/bintype.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/bintype.py b/src/hwp5/bintype.py
index 1e65910..77dbd87 100644
--- a/src/hwp5/bintype.py
+++ b/src/hwp5/bintype.py
@@ -285,7 +285,7 @@ def resolve_typedefs(typedef_events, context):
 
 def evaluate_bin_values(events):
     for ev, item in events:
-        if 'flags_type' in item:
+        if 'flags_type' in item and ev is not ERROREVENT:
             flags_type = item['flags_type']
             assert isinstance(flags_type, FlagsType)
             item['value'] = flags_type(item['value'])
-- 
2.43.0


From 4618ebfa596d50a8b95a3bc900ed4e779f2863f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:27 +0000
Subject: [PATCH 12/77] fix: report inconsistent records as parse errors

A record which refers to a member that its parent doesn't have (e.g. a
PARA_CHAR_SHAPE outside of a paragraph) made KeyError escape from the
parser.
---
 src/hwp5/binmodel/__init__.py | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/hwp5/binmodel/__init__.py b/src/hwp5/binmodel/__init__.py
index a48116d..a206360 100644
--- a/src/hwp5/binmodel/__init__.py
+++ b/src/hwp5/binmodel/__init__.py
@@ -315,20 +315,33 @@ def parse_model(context, model):
 
 def raise_on_errorevent(context, events):
     binevents = list()
-    for ev, item in events:
+
+    def parse_error(msg, cause, offset):
+        pe = ParseError(msg)
+        pe.cause = cause
+        pe.path = context.get('path')
+        pe.treegroup = context.get('treegroup')
+        pe.record = context.get('record')
+        pe.offset = offset
+        pe.binevents = binevents
+        return pe
+
+    events = iter(events)
+    while True:
+        try:
+            ev, item = next(events)
+        except StopIteration:
+            return
+        except Exception as e:
+            # e.g. a reference to a member which the parent doesn't have
+            stream = context.get('stream')
+            raise parse_error('can\'t parse a record: %r' % e, e,
+                              stream.tell() if stream else None)
         yield ev, item
         binevents.append((ev, item))
         if ev is ERROREVENT:
-            e = item['exception']
-            msg = 'can\'t parse %s' % item['type']
-            pe = ParseError(msg)
-            pe.cause = e
-            pe.path = context.get('path')
-            pe.treegroup = context.get('treegroup')
-            pe.record = context.get('record')
-            pe.offset = item.get('bin_offset')
-            pe.binevents = binevents
-            raise pe
+            raise parse_error('can\'t parse %s' % item['type'],
+                              item['exception'], item.get('bin_offset'))
 
 
 def resolve_models(context, records):
-- 
2.43.0


From bb2cffb2d0173f87526d9532f93e57fe1bb6b3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:27 +0000
Subject: [PATCH 13/77] fix: parse_model_events() must raise ParseError

Errors were passed on as plain events and the missing values caused
KeyErrors later on, in 'hwp5proc models --events' and in flat XML.
---
 src/hwp5/binmodel/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/binmodel/__init__.py b/src/hwp5/binmodel/__init__.py
index a206360..a2654f1 100644
--- a/src/hwp5/binmodel/__init__.py
+++ b/src/hwp5/binmodel/__init__.py
@@ -336,7 +336,7 @@ def raise_on_errorevent(context, events):
             # e.g. a reference to a member which the parent doesn't have
             stream = context.get('stream')
             raise parse_error('can\'t parse a record: %r' % e, e,
-                              stream.tell() if stream else None)
+                              stream.tell() if stream else 0)
         yield ev, item
         binevents.append((ev, item))
         if ev is ERROREVENT:
@@ -360,7 +360,8 @@ def resolve_models(context, records):
         context['type'] = RecordModel
         context['name'] = record_frame['tagname']
         yield STARTEVENT, context
-        for x in resolve_model_events(context, context['model']):
+        events = resolve_model_events(context, context['model'])
+        for x in raise_on_errorevent(context, events):
             yield x
         event, item = x
         context['value'] = item
-- 
2.43.0


From 8bf25f39dd9bc87f1b4a8b5544c8588ce475814f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:57 +0000
Subject: [PATCH 14/77] fix: reject levels below the base level

A level sequence which goes below its first level popped the root item off
the stack: a wrong ENDEVENT for the root or an IndexError.  It is rejected
like a skipped level now.
---
 src/hwp5/treeop.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/hwp5/treeop.py b/src/hwp5/treeop.py
index f093b2f..8bbd4e1 100644
--- a/src/hwp5/treeop.py
+++ b/src/hwp5/treeop.py
@@ -29,6 +29,14 @@ class ENDEVENT:
     pass
 
 
+class InvalidLevelError(Exception):
+
+    def __init__(self, level, maxlevel, item):
+        Exception.__init__(self, 'invalid level: %d, %d, %s' %
+                           (level, maxlevel, item))
+        self.item = item
+
+
 def prefix_event(level_prefixed_items, root_item=None):
     ''' convert iterable of (level, item) into iterable of (event, item)
     '''
@@ -41,11 +49,10 @@ def prefix_event(level_prefixed_items, root_item=None):
         else:
             level -= baselevel
 
+        if level < 0 or len(stack) < level + 1:
+            raise InvalidLevelError(level, len(stack) - 1, item)
         while level + 1 < len(stack):
             yield ENDEVENT, stack.pop()
-        while len(stack) < level + 1:
-            raise Exception('invalid level: %d, %d, %s' %
-                            (level, len(stack) - 1, item))
         assert(len(stack) == level + 1)
 
         stack.append(item)
@@ -82,11 +89,10 @@ def prefix_ancestors_from_level(level_prefixed_items, root_item=None):
         else:
             level -= baselevel
 
+        if level < 0 or len(stack) < level + 1:
+            raise InvalidLevelError(level, len(stack) - 1, item)
         while level + 1 < len(stack):
             stack.pop()
-        while len(stack) < level + 1:
-            raise Exception('invalid level: %d, %d, %s' %
-                            (level, len(stack) - 1, item))
         assert(len(stack) == level + 1)
 
         yield stack, item
-- 
2.43.0


From dfff4073419383073728a79e75680167ac4f9b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:19 +0000
Subject: [PATCH 15/77] fix: report invalid record levels as parse errors

A bare Exception escaped from the parser when a record skipped a level.
---
 src/hwp5/binmodel/__init__.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/hwp5/binmodel/__init__.py b/src/hwp5/binmodel/__init__.py
index a2654f1..9a0bf99 100644
--- a/src/hwp5/binmodel/__init__.py
+++ b/src/hwp5/binmodel/__init__.py
@@ -35,6 +35,7 @@ from ..recordstream import nth
 from ..tagids import tagnames
 from ..treeop import STARTEVENT
 from ..treeop import ENDEVENT
+from ..treeop import InvalidLevelError
 from ..treeop import prefix_ancestors_from_level
 from ..utils import JsonObjects
 
@@ -294,12 +295,31 @@ def parse_models_with_parent(context_models):
                       for context, model in context_models)
     root_item = (dict(), dict())
     ancestors_prefixed = prefix_ancestors_from_level(level_prefixed, root_item)
+    ancestors_prefixed = raise_on_invalid_level(ancestors_prefixed,
+                                                lambda item: item[0])
     for ancestors, (context, model) in ancestors_prefixed:
         context['parent'] = ancestors[-1]
         parse_model(context, model)
         yield context, model
 
 
+def raise_on_invalid_level(ancestors_prefixed, get_context):
+    try:
+        for x in ancestors_prefixed:
+            yield x
+    except InvalidLevelError as e:
+        context = get_context(e.item)
+        record = context['record']
+        pe = ParseError('invalid level %s of the record %s' %
+                        (record['level'], record.get('seqno')))
+        pe.cause = e
+        pe.path = context.get('path')
+        pe.treegroup = context.get('treegroup')
+        pe.record = record
+        pe.offset = 0
+        raise pe
+
+
 def parse_model(context, model):
     ''' HWPTAG로 모델 결정 후 기본 파싱 '''
 
@@ -352,6 +372,8 @@ def resolve_models(context, records):
                       for context in model_contexts)
     root_item = {}
     ancestors_prefixed = prefix_ancestors_from_level(level_prefixed, root_item)
+    ancestors_prefixed = raise_on_invalid_level(ancestors_prefixed,
+                                                lambda item: item)
     for ancestors, context in ancestors_prefixed:
         parent = ancestors[-1]
         context['parent'] = parent, parent.get('model', {})
-- 
2.43.0


From d6d4aaae1d77af0f7f1444b9d88899290897147e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:51 +0000
Subject: [PATCH 16/77] fix: don't expand arrays before their data is read

A corrupted item count of an array (up to 2**32 - 1) exhausted the memory
before the missing data could be noticed.
---
 src/hwp5/bintype.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/hwp5/bintype.py b/src/hwp5/bintype.py
index 77dbd87..c905e4e 100644
--- a/src/hwp5/bintype.py
+++ b/src/hwp5/bintype.py
@@ -156,6 +156,10 @@ class ERROREVENT(object):
     pass
 
 
+class REPEATEVENT(object):
+    pass
+
+
 def static_to_mutable(events):
     stack = []
     for ev, item in events:
@@ -270,11 +274,20 @@ def resolve_typedefs(typedef_events, context):
                         item = stack.pop()
                     yield ev, item
 
+            # the items are cloned one by one, because the count may be
+            # (wrongly) huge
             events.appendleft(endevent)
-            for _ in range(0, count):
-                cloned = list(clone(subevents))
-                events.extendleft(reversed(cloned))
+            events.appendleft((REPEATEVENT, dict(type=None,
+                                                 count=count,
+                                                 subevents=subevents,
+                                                 clone=clone)))
             events.appendleft((ev, item))
+        elif ev is REPEATEVENT:
+            if item['count'] > 0:
+                item['count'] -= 1
+                events.appendleft((ev, item))
+                cloned = list(item['clone'](item['subevents']))
+                events.extendleft(reversed(cloned))
         else:
             if ev is STARTEVENT:
                 stack.append(item)
-- 
2.43.0


From 05af353a8a1cfdda1fe4fcd644789883912e6205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:51 +0000
Subject: [PATCH 17/77] fix: reserved control characters 0x19-0x1d

They are single-unit characters (reserved) in the specification, but were
not known and made a whole paragraph fail with a KeyError.
---
 src/hwp5/binmodel/controlchar.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hwp5/binmodel/controlchar.py b/src/hwp5/binmodel/controlchar.py
index a38554e..1306e5b 100644
--- a/src/hwp5/binmodel/controlchar.py
+++ b/src/hwp5/binmodel/controlchar.py
@@ -153,6 +153,11 @@ class ControlChar(object):
              0x16: ('BOOKMARK', EXTENDED),
              0x17: ('CTLCHR17', EXTENDED),
              0x18: ('HYPHEN', CHAR),
+             0x19: ('CTLCHR19', CHAR),
+             0x1a: ('CTLCHR1A', CHAR),
+             0x1b: ('CTLCHR1B', CHAR),
+             0x1c: ('CTLCHR1C', CHAR),
+             0x1d: ('CTLCHR1D', CHAR),
              0x1e: ('NONBREAK_SPACE', CHAR),
              0x1f: ('FIXWIDTH_SPACE', CHAR)}
     names = dict((unichr(code), name) for code, (name, kind) in chars.items())
-- 
2.43.0


From bc2f3ec999f22291da709d2f4dd2f29149ff387f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:51 +0000
Subject: [PATCH 18/77] fix: control characters cut off at the end of a
 paragraph text

The parameters of the control character were silently shortened and its
end position was beyond the end of the text.
---
 src/hwp5/binmodel/controlchar.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/binmodel/controlchar.py b/src/hwp5/binmodel/controlchar.py
index 1306e5b..0132665 100644
--- a/src/hwp5/binmodel/controlchar.py
+++ b/src/hwp5/binmodel/controlchar.py
@@ -24,6 +24,7 @@ import sys
 
 from six import with_metaclass
 
+from hwp5.dataio import Eof
 from hwp5.dataio import PrimitiveType
 from hwp5.dataio import UINT32
 from hwp5.dataio import UINT16
@@ -181,8 +182,10 @@ class ControlChar(object):
                     char = unichr(data[i])
                 else:
                     char = unichr(ord(data[i]))
-                size = cls.kinds[char].size
-                return i, i + (size * 2)
+                end = i + cls.kinds[char].size * 2
+                if end > len(data):
+                    raise Eof(len(data))
+                return i, end
             data_len = len(data)
             return data_len, data_len
     find = classmethod(find)
-- 
2.43.0


From 594650270a771cb06b72c24f527de92953923b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:19 +0000
Subject: [PATCH 19/77] fix: hwp5proc xml --format=flat on Python 3

Produce bytes, dump sections of the text in their numeric order and allow
undefined values of enumerations.
---
 src/hwp5/xmldump_flat.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/hwp5/xmldump_flat.py b/src/hwp5/xmldump_flat.py
index 36a7757..4c36b67 100644
--- a/src/hwp5/xmldump_flat.py
+++ b/src/hwp5/xmldump_flat.py
@@ -19,6 +19,7 @@
 from __future__ import absolute_import
 from __future__ import print_function
 from __future__ import unicode_literals
+import sys
 
 from .binmodel import ControlChar
 from .binmodel import ParaTextChunks
@@ -37,11 +38,16 @@ from .treeop import STARTEVENT
 from .xmlformat import xmlevents_to_bytechunks
 
 
+PY3 = sys.version_info.major == 3
+if PY3:
+    unicode = str
+
+
 def xmldump_flat(hwp5file, output, xml_declaration=True):
     xmlevents = xmlevents_from_hwp5file(hwp5file)
     bytechunks = xmlevents_to_bytechunks(xmlevents)
     if xml_declaration:
-        output.write('<?xml version="1.0" encoding="utf-8"?>')
+        output.write(b'<?xml version="1.0" encoding="utf-8"?>')
     for x in bytechunks:
         output.write(x)
 
@@ -70,8 +76,9 @@ def xmlevents_from_hwp5file(hwp5file):
         yield x
     yield ENDEVENT, 'DocInfo'
 
-    for section_name in hwp5file.bodytext:
-        section = hwp5file.bodytext[section_name]
+    for section_idx in hwp5file.text.section_indexes():
+        section_name = 'Section%d' % section_idx
+        section = hwp5file.text[section_name]
         yield STARTEVENT, ('Section', {
             'name': section_name
         })
@@ -111,6 +118,12 @@ def expand_item_values(model_events):
             yield x
 
 
+def plainvalue(value):
+    if isinstance(value, bytes):
+        return value.decode('latin1')
+    return unicode(value)
+
+
 def xmlevents_from_modelevents(model_events):  # noqa
     expanded_events = expand_item_values(model_events)
     for ev, data in expanded_events:
@@ -154,7 +167,7 @@ def xmlevents_from_modelevents(model_events):  # noqa
             elif ev is None:
                 atrs = {
                     'type': typename,
-                    'value': unicode(data['value'])
+                    'value': plainvalue(data['value'])
                 }
                 if 'name' in data:
                     atrs['name'] = data['name']
@@ -199,7 +212,7 @@ def xmlevents_from_modelevents(model_events):  # noqa
                         if isinstance(bitfield_type, EnumType):
                             atrs = {
                                 'type': bitfield_type.__name__,
-                                'value': value.name
+                                'value': value.name or unicode(int(value))
                             }
                             yield STARTEVENT, ('enum', atrs)
                             yield ENDEVENT, 'enum'
-- 
2.43.0


From c5400137a71fa17db5b0d6e9df2e75e46ada24ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:29 +0000
Subject: [PATCH 20/77] fix: characters not allowed in XML made the output
 ill-formed

Replace them with U+FFFD; NULs are still removed.
---
 src/hwp5/xmlformat.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/hwp5/xmlformat.py b/src/hwp5/xmlformat.py
index 7a3a8e6..8c396e6 100644
--- a/src/hwp5/xmlformat.py
+++ b/src/hwp5/xmlformat.py
@@ -23,6 +23,7 @@ from itertools import chain
 from xml.sax.saxutils import escape
 from xml.sax.saxutils import quoteattr
 import logging
+import re
 import sys
 
 from .filestructure import VERSION
@@ -53,6 +54,20 @@ if PY3:
 logger = logging.getLogger(__name__)
 
 
+# characters not allowed in XML documents
+# (see http://www.w3.org/TR/xml/#NT-Char)
+if sys.maxunicode > 0xffff:
+    ILLEGAL_CHARS = u'[\x01-\x08\x0b\x0c\x0e-\x1f\ud800-\udfff\ufffe\uffff]'
+else:
+    ILLEGAL_CHARS = u'[\x01-\x08\x0b\x0c\x0e-\x1f\ufffe\uffff]'
+REGEX_ILLEGAL_CHARS = re.compile(ILLEGAL_CHARS)
+
+
+def xml_legal(text):
+    text = text.replace('\x00', '')
+    return REGEX_ILLEGAL_CHARS.sub(u'\ufffd', text)
+
+
 def xmlattrval(value):
     if isinstance(value, basestring):
         return value
@@ -255,14 +270,10 @@ def xmlevents_to_textchunks(xmlevents):
                 yield ' '
                 yield n
                 yield '='
-                v = quoteattr(v, entities)
-                v = v.replace('\x00', '')
-                yield v
+                yield quoteattr(xml_legal(v), entities)
             yield '>'
         elif event is Text:
-            text = escape(item)
-            text = text.replace('\x00', '')
-            yield text
+            yield escape(xml_legal(item))
         elif event is ENDEVENT:
             yield '</'
             yield item
-- 
2.43.0


From 75ec4482a8edebbe62a73a9a1865ca4343e40e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:58 +0000
Subject: [PATCH 21/77] fix: byte values in XML attributes on Python 3

---
 src/hwp5/xmlformat.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hwp5/xmlformat.py b/src/hwp5/xmlformat.py
index 8c396e6..1426cf3 100644
--- a/src/hwp5/xmlformat.py
+++ b/src/hwp5/xmlformat.py
@@ -71,6 +71,8 @@ def xml_legal(text):
 def xmlattrval(value):
     if isinstance(value, basestring):
         return value
+    elif isinstance(value, bytes):
+        return value.decode('latin1')
     elif isinstance(value, float):
         # https://stackoverflow.com/questions/25898733/why-does-strfloat-return-more-digits-in-python-3-than-python-2
         return repr(value)
-- 
2.43.0


From a2e4b8760b9c1d772f4214a8ad380493655e8b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:29 +0000
Subject: [PATCH 22/77] fix: rounding of negative lengths

They were truncated toward zero: -1 inch became -25.39 mm.
---
 src/hwp5/dataio.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/dataio.py b/src/hwp5/dataio.py
index 619f6a8..e80420f 100644
--- a/src/hwp5/dataio.py
+++ b/src/hwp5/dataio.py
@@ -24,6 +24,7 @@ from binascii import b2a_hex
 from itertools import takewhile
 import inspect
 import logging
+import math
 import struct
 import sys
 
@@ -122,10 +123,10 @@ HWPUNIT = Primitive('HWPUNIT', long, '<I')
 SHWPUNIT = Primitive('SHWPUNIT', int, '<i')
 HWPUNIT16 = Primitive('HWPUNIT16', int, '<h')
 
-inch2mm = lambda x: float(int(x * 25.4 * 100 + 0.5)) / 100  # noqa
+inch2mm = lambda x: math.floor(x * 25.4 * 100 + 0.5) / 100  # noqa
 hwp2inch = lambda x: x / 7200.0  # noqa
 hwp2mm = lambda x: inch2mm(hwp2inch(x))  # noqa
-hwp2pt = lambda x: int((x / 100.0) * 10 + 0.5) / 10.0  # noqa
+hwp2pt = lambda x: math.floor((x / 100.0) * 10 + 0.5) / 10.0  # noqa
 
 
 class HexBytes(type):
-- 
2.43.0


From 95b6fb68db1545645bcde768853afb36bc353817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:49 +0000
Subject: [PATCH 23/77] fix: match fields in their own text list

A field left open in a table cell, note etc. (or a stray end of field in
it) was matched with the fields of the enclosing paragraph, and the
resulting XML wasn't well-formed.
---
 src/hwp5/xmlmodel.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/xmlmodel.py b/src/hwp5/xmlmodel.py
index 84024c2..cee4f8e 100644
--- a/src/hwp5/xmlmodel.py
+++ b/src/hwp5/xmlmodel.py
@@ -395,9 +395,18 @@ def make_paragraphs_children_of_listheader(event_prefixed_mac,
 
 
 def match_field_start_end(event_prefixed_mac):
-    stack = []
+    # fields are matched in their own text list
+    stacks = [[]]
     for event, item in event_prefixed_mac:
         (model, attributes, context) = item
+        if issubclass(model, Control) and not issubclass(model, Field):
+            if event is STARTEVENT:
+                stacks.append([])
+            else:
+                stacks.pop()
+        elif issubclass(model, ListHeader) and event is STARTEVENT:
+            stacks[-1] = []
+        stack = stacks[-1]
         if issubclass(model, Field):
             for x in mfse_field(event, stack, item):
                 yield x
-- 
2.43.0


From cb8a2e922efd78ad491a1ca1e4240810fa07c8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:49 +0000
Subject: [PATCH 24/77] fix: table rows of no cells

They took two cells of the following rows.
---
 src/hwp5/xmlmodel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/xmlmodel.py b/src/hwp5/xmlmodel.py
index cee4f8e..d7c5701 100644
--- a/src/hwp5/xmlmodel.py
+++ b/src/hwp5/xmlmodel.py
@@ -477,7 +477,9 @@ def rstbody_tablebody(event, stack, item, attributes, context):
     if event is STARTEVENT:
         rowcols = deque()
         for cols in attributes.pop('rowcols'):
-            if cols == 1:
+            if cols == 0:
+                continue
+            elif cols == 1:
                 rowcols.append(ROW_OPEN | ROW_CLOSE)
             else:
                 rowcols.append(ROW_OPEN)
-- 
2.43.0


From 9c94a73573b484882b361b468b6c8740cf220093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:02 +0000
Subject: [PATCH 25/77] fix: split texts at UTF-16 positions

Chunk positions count UTF-16 code units, but texts were sliced by characters,
so that formatting after a supplementary character was misplaced.
Control characters can't be divided at shape and line boundaries.
---
 src/hwp5/xmlmodel.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/hwp5/xmlmodel.py b/src/hwp5/xmlmodel.py
index d7c5701..6ee7887 100644
--- a/src/hwp5/xmlmodel.py
+++ b/src/hwp5/xmlmodel.py
@@ -100,6 +100,19 @@ def make_ranged_shapes(shapes):
     yield (item[0], 0x7fffffff), item[1]
 
 
+def split_text(text, pos):
+    ''' split a text at the position counted in UTF-16 code units '''
+    if len(text.encode('utf-16le')) == len(text) * 2:
+        return text[:pos], text[pos:]
+
+    units = 0
+    for idx, ch in enumerate(text):
+        if units >= pos:
+            return text[:idx], text[idx:]
+        units += len(ch.encode('utf-16le')) // 2
+    return text, text[:0]
+
+
 def split_and_shape(chunks, ranged_shapes):
     try:
         (chunk_start, chunk_end), chunk_attr, chunk = next(chunks)
@@ -124,16 +137,16 @@ def split_and_shape(chunks, ranged_shapes):
             # case 2: chunk has left intersection
             #         vvvv
             #         ..----
-            if shape_end < chunk_end:           # (2)
-                prev = ((chunk_start, shape_end),
-                        chunk[:shape_end - chunk_start])
-                nexT = ((shape_end, chunk_end),
-                        chunk[shape_end - chunk_start:])
-                (chunk_start, chunk_end), chunk = prev
+            # (control characters are not divisible)
+            if shape_end < chunk_end and isinstance(chunk, basestring):  # (2)
+                prev_chunk, next_chunk = split_text(chunk,
+                                                    shape_end - chunk_start)
+                nexT = ((shape_end, chunk_end), next_chunk)
+                (chunk_start, chunk_end), chunk = ((chunk_start, shape_end),
+                                                   prev_chunk)
             else:
                 nexT = None
 
-            assert chunk_end <= shape_end       # by (2)
             yield (chunk_start, chunk_end), (shape, chunk_attr), chunk
 
             if nexT is not None:
-- 
2.43.0


From fc1684d9a96d88d6ceaaa43da48f6d6b558dd64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:40 +0000
Subject: [PATCH 26/77] fix: keep tabs and line breaks in plain text

---
 src/hwp5/xsl/plaintext.xsl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hwp5/xsl/plaintext.xsl b/src/hwp5/xsl/plaintext.xsl
index d1c997d..f635ee5 100644
--- a/src/hwp5/xsl/plaintext.xsl
+++ b/src/hwp5/xsl/plaintext.xsl
@@ -52,6 +52,10 @@
 
   <xsl:template match="ControlChar"></xsl:template>
 
+  <xsl:template match="ControlChar[@name='TAB' or @name='LINE_BREAK']">
+    <xsl:value-of select="@char"/>
+  </xsl:template>
+
   <xsl:template match="TableControl">&#10;&lt;표&gt;&#10;</xsl:template>
 
   <xsl:template match="GShapeObjectControl">&#10;&lt;그림&gt;&#10;</xsl:template>
-- 
2.43.0


From 9a2fd2fdfd8c5fcc08bdfcd83b3fb5ced9a5d7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:35 +0000
Subject: [PATCH 27/77] fix: keep the content of fields in HTML

---
 src/hwp5/xsl/hwp5html.xsl | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/hwp5/xsl/hwp5html.xsl b/src/hwp5/xsl/hwp5html.xsl
index 1aa1344..04855d3 100644
--- a/src/hwp5/xsl/hwp5html.xsl
+++ b/src/hwp5/xsl/hwp5html.xsl
@@ -127,18 +127,28 @@
         </xsl:choose>
       </xsl:attribute>
       <xsl:for-each select="LineSeg">
-        <xsl:apply-templates select="Text|ControlChar|AutoNumbering|TableControl[@inline='1']|GShapeObjectControl[@inline='1']" />
+        <xsl:call-template name="inline-content" />
       </xsl:for-each>
     </xsl:element>
-    <xsl:apply-templates select="LineSeg/TableControl[@inline='0']" />
-    <xsl:apply-templates select="LineSeg/GShapeObjectControl[@inline='0']" />
+    <xsl:variable name="paragraph-uid" select="generate-id()" />
+    <xsl:apply-templates select="LineSeg//TableControl[@inline='0'][generate-id(ancestor::Paragraph[1]) = $paragraph-uid]" />
+    <xsl:apply-templates select="LineSeg//GShapeObjectControl[@inline='0'][generate-id(ancestor::Paragraph[1]) = $paragraph-uid]" />
+  </xsl:template>
+
+  <xsl:template name="inline-content">
+    <xsl:apply-templates select="Text|ControlChar|AutoNumbering|TableControl[@inline='1']|GShapeObjectControl[@inline='1']|*[starts-with(local-name(), 'Field')]" />
+  </xsl:template>
+
+  <!-- fields: FieldHyperLink, FieldClickHere, ... -->
+  <xsl:template match="*[starts-with(local-name(), 'Field')]">
+    <xsl:call-template name="inline-content" />
   </xsl:template>
 
   <xsl:template match="ControlChar"><xsl:value-of select="@char"/></xsl:template>
 
-  <xsl:template match="Paragraph/LineSeg/Text">
+  <xsl:template match="Text">
     <xsl:element name="span">
-      <xsl:variable name="styleid" select="../../@style-id"/>
+      <xsl:variable name="styleid" select="ancestor::Paragraph[1]/@style-id"/>
       <xsl:variable name="style" select="//Style[number($styleid)+1]" />
       <xsl:variable name="stylename" select="$style/@name" />
       <xsl:variable name="stylencname" select="translate($stylename, ' ', '-')" />
@@ -435,7 +445,7 @@
   </xsl:template>
 
   <xsl:template match="TableControl|GShapeObjectControl" mode="extendedcontrol-hpos">
-    <xsl:variable name="paragraph" select="../.." />
+    <xsl:variable name="paragraph" select="ancestor::Paragraph[1]" />
     <xsl:variable name="parashape_pos" select="number($paragraph/@parashape-id) + 1" />
     <xsl:variable name="parashape" select="//ParaShape[$parashape_pos]" />
     <xsl:variable name="columnset" select="$paragraph/.." />
-- 
2.43.0


From 79fd8dda54c07465ebb622d23a3ba2fa30d578bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:36 +0000
Subject: [PATCH 28/77] fix: ODT text styles were not found and fields dropped

---
 src/hwp5/xsl/odt/common.xsl | 40 ++++++++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/src/hwp5/xsl/odt/common.xsl b/src/hwp5/xsl/odt/common.xsl
index 2e4fe0c..71b1cd9 100644
--- a/src/hwp5/xsl/odt/common.xsl
+++ b/src/hwp5/xsl/odt/common.xsl
@@ -721,8 +721,10 @@
     <xsl:variable name="paragraph-id" select="@paragraph-id + 1"/>
     <xsl:for-each select="LineSeg">
       <xsl:variable name="lineseg-pos" select="position()" />
-      <xsl:for-each select="Text">
-        <xsl:variable name="text-pos" select="position()" />
+      <xsl:for-each select=".//Text[generate-id(ancestor::LineSeg[1]) = generate-id(current())]">
+        <xsl:variable name="text-pos">
+          <xsl:apply-templates mode="text-pos" select="." />
+        </xsl:variable>
         <xsl:variable name="style-name">
           <xsl:text>p</xsl:text>
           <xsl:value-of select="$paragraph-id" />
@@ -739,6 +741,12 @@
     </xsl:for-each>
   </xsl:template>
 
+  <!-- position of a Text in its LineSeg; the fields containing it are numbered too -->
+  <xsl:template mode="text-pos" match="Text">
+    <xsl:number level="multiple" from="LineSeg" format="1-1"
+      count="Text|*[starts-with(local-name(), 'Field')]" />
+  </xsl:template>
+
   <xsl:template mode="style:style" match="Text">
     <xsl:param name="style-name" />
     <xsl:param name="style-charshape-id" />
@@ -892,21 +900,43 @@
           <xsl:with-param name="paragraph" select="."/>
         </xsl:apply-templates>
       </xsl:element>
-      <xsl:apply-templates select="LineSeg/TableControl"/>
+      <xsl:variable name="paragraph-uid" select="generate-id()" />
+      <xsl:apply-templates select="LineSeg//TableControl[generate-id(ancestor::Paragraph[1]) = $paragraph-uid]"/>
   </xsl:template>
 
   <xsl:template match="LineSeg">
     <xsl:param name="paragraph" />
-    <xsl:apply-templates select="Text|GShapeObjectControl|FootNote|EndNote|ControlChar">
+    <xsl:call-template name="inline-content">
       <xsl:with-param name="paragraph" select="$paragraph"/>
       <xsl:with-param name="lineseg-pos" select="position()"/>
+    </xsl:call-template>
+  </xsl:template>
+
+  <xsl:template name="inline-content">
+    <xsl:param name="paragraph" />
+    <xsl:param name="lineseg-pos" />
+    <xsl:apply-templates select="Text|GShapeObjectControl|FootNote|EndNote|ControlChar|*[starts-with(local-name(), 'Field')]">
+      <xsl:with-param name="paragraph" select="$paragraph"/>
+      <xsl:with-param name="lineseg-pos" select="$lineseg-pos"/>
     </xsl:apply-templates>
   </xsl:template>
 
+  <!-- fields: FieldHyperLink, FieldClickHere, ... -->
+  <xsl:template match="*[starts-with(local-name(), 'Field')]">
+    <xsl:param name="paragraph" />
+    <xsl:param name="lineseg-pos" />
+    <xsl:call-template name="inline-content">
+      <xsl:with-param name="paragraph" select="$paragraph"/>
+      <xsl:with-param name="lineseg-pos" select="$lineseg-pos"/>
+    </xsl:call-template>
+  </xsl:template>
+
   <xsl:template match="Text">
     <xsl:param name="paragraph"/>
     <xsl:param name="lineseg-pos"/>
-    <xsl:variable name="text-pos" select="position()"/>
+    <xsl:variable name="text-pos">
+      <xsl:apply-templates mode="text-pos" select="." />
+    </xsl:variable>
     <xsl:variable name="paragraph-id" select="$paragraph/@paragraph-id + 1" />
     <xsl:variable name="style-id" select="$paragraph/@style-id + 1" />
     <xsl:variable name="style" select="/HwpDoc/DocInfo/IdMappings/Style[$style-id]" />
-- 
2.43.0


From a7d554da60ccb16dbb79763b6c1d0e304c2a8b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:36 +0000
Subject: [PATCH 29/77] fix: keep tabs and line breaks in ODT

---
 src/hwp5/xsl/odt/common.xsl | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/hwp5/xsl/odt/common.xsl b/src/hwp5/xsl/odt/common.xsl
index 71b1cd9..59d5eba 100644
--- a/src/hwp5/xsl/odt/common.xsl
+++ b/src/hwp5/xsl/odt/common.xsl
@@ -952,6 +952,14 @@
 
   <xsl:template match="ControlChar"></xsl:template>
 
+  <xsl:template match="ControlChar[@name='TAB']">
+    <text:tab/>
+  </xsl:template>
+
+  <xsl:template match="ControlChar[@name='LINE_BREAK']">
+    <text:line-break/>
+  </xsl:template>
+
   <xsl:template match="TableControl">
     <xsl:variable name="table-id" select="@table-id + 1" />
     <xsl:element name="table:table">
-- 
2.43.0


From 61c9870754e1178f17df1489fe5955f52dd49af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:36 +0000
Subject: [PATCH 30/77] fix: western font names in ODT

---
 src/hwp5/xsl/odt/common.xsl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/xsl/odt/common.xsl b/src/hwp5/xsl/odt/common.xsl
index 59d5eba..2d4e861 100644
--- a/src/hwp5/xsl/odt/common.xsl
+++ b/src/hwp5/xsl/odt/common.xsl
@@ -541,7 +541,8 @@
   </xsl:template>
 
   <xsl:template mode="style:font-name" match="FontFace">
-    <xsl:variable name="facename-en-id" select="@en + 1"/>
+    <!-- FaceNames of all languages are in a row: ko, en, ... -->
+    <xsl:variable name="facename-en-id" select="//IdMappings/@ko-fonts + @en + 1"/>
     <xsl:apply-templates mode="style:font-name" select="//FaceName[$facename-en-id]" />
   </xsl:template>
 
-- 
2.43.0


From 5839de9bbd07ad6d40a9e0607add0bea34b05767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:31 +0000
Subject: [PATCH 31/77] fix: ODT styles were invalid with fonts without Panose

---
 src/hwp5/xsl/odt/common.xsl | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/hwp5/xsl/odt/common.xsl b/src/hwp5/xsl/odt/common.xsl
index 2d4e861..6d4acc7 100644
--- a/src/hwp5/xsl/odt/common.xsl
+++ b/src/hwp5/xsl/odt/common.xsl
@@ -198,12 +198,14 @@
       <!-- Panose1/@serif-style -->
       <!-- 2..10 : serif(roman) -->
       <!-- 11~15 : sans-serif(swiss) -->
-      <xsl:attribute name="style:font-family-generic">
-        <xsl:choose>
-          <xsl:when test="Panose1/@serif-style &lt; 11"><xsl:text>roman</xsl:text></xsl:when>
-          <xsl:when test="Panose1/@serif-style &gt;= 11"><xsl:text>swiss</xsl:text></xsl:when>
-        </xsl:choose>
-      </xsl:attribute>
+      <xsl:if test="Panose1">
+        <xsl:attribute name="style:font-family-generic">
+          <xsl:choose>
+            <xsl:when test="Panose1/@serif-style &lt; 11"><xsl:text>roman</xsl:text></xsl:when>
+            <xsl:when test="Panose1/@serif-style &gt;= 11"><xsl:text>swiss</xsl:text></xsl:when>
+          </xsl:choose>
+        </xsl:attribute>
+      </xsl:if>
       <!-- TODO: Panose1/@proportion -->
       <xsl:attribute name="style:font-pitch">variable</xsl:attribute>
     </xsl:element>
-- 
2.43.0


From 7b2e0fcb0d88809275a9887bf12eb60156616f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:31 +0000
Subject: [PATCH 32/77] fix: pictures without embedded data made the ODT
 invalid

---
 src/hwp5/xsl/odt/common.xsl | 41 ++++++++++++++++---------------------
 1 file changed, 18 insertions(+), 23 deletions(-)

diff --git a/src/hwp5/xsl/odt/common.xsl b/src/hwp5/xsl/odt/common.xsl
index 6d4acc7..39b0923 100644
--- a/src/hwp5/xsl/odt/common.xsl
+++ b/src/hwp5/xsl/odt/common.xsl
@@ -1512,29 +1512,24 @@
 	<xsl:variable name="binpath" select="'bindata/'"/>
 	<xsl:variable name="bindataid" select="PictureInfo/@bindata-id"/>
 	<xsl:variable name="bindata" select="/HwpDoc/DocInfo/IdMappings/BinData[number($bindataid)]"/>
-	<xsl:element name="draw:image">
-	  <xsl:choose>
-	    <xsl:when test="$bindata/@storage = 'embedding'">
-	      <xsl:for-each select="$bindata/BinDataEmbedding">
-		<xsl:choose>
-		  <xsl:when test="@inline = 'true'">
-		    <xsl:element name="office:binary-data">
-		      <xsl:if test="@inline = 'true'">
-			<xsl:value-of select="text()" />
-		      </xsl:if>
-		    </xsl:element>
-		  </xsl:when>
-		  <xsl:otherwise>
-		    <xsl:attribute name="xlink:actuate">onLoad</xsl:attribute>
-		    <xsl:attribute name="xlink:show">embed</xsl:attribute>
-		    <xsl:attribute name="xlink:type">simple</xsl:attribute>
-		    <xsl:attribute name="xlink:href"><xsl:value-of select="$binpath"/><xsl:value-of select="@storage-id"/>.<xsl:value-of select="@ext"/></xsl:attribute>
-		  </xsl:otherwise>
-		</xsl:choose>
-	      </xsl:for-each>
-	    </xsl:when>
-	  </xsl:choose>
-	</xsl:element>
+	<!-- an image without data, such as a linked one, is not valid -->
+	<xsl:for-each select="$bindata[@storage = 'embedding']/BinDataEmbedding">
+	  <xsl:element name="draw:image">
+	    <xsl:choose>
+	      <xsl:when test="@inline = 'true'">
+		<xsl:element name="office:binary-data">
+		  <xsl:value-of select="text()" />
+		</xsl:element>
+	      </xsl:when>
+	      <xsl:otherwise>
+		<xsl:attribute name="xlink:actuate">onLoad</xsl:attribute>
+		<xsl:attribute name="xlink:show">embed</xsl:attribute>
+		<xsl:attribute name="xlink:type">simple</xsl:attribute>
+		<xsl:attribute name="xlink:href"><xsl:value-of select="$binpath"/><xsl:value-of select="@storage-id"/>.<xsl:value-of select="@ext"/></xsl:attribute>
+	      </xsl:otherwise>
+	    </xsl:choose>
+	  </xsl:element>
+	</xsl:for-each>
       </xsl:for-each>
     </xsl:element>
   </xsl:template>
-- 
2.43.0


From e9f8445a5e93298ef14bf54306fd2a3e80125b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:32 +0000
Subject: [PATCH 33/77] fix: a table row without own cells made the ODT invalid

---
 src/hwp5/xsl/odt/common.xsl | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hwp5/xsl/odt/common.xsl b/src/hwp5/xsl/odt/common.xsl
index 39b0923..390e916 100644
--- a/src/hwp5/xsl/odt/common.xsl
+++ b/src/hwp5/xsl/odt/common.xsl
@@ -982,6 +982,12 @@
               <xsl:apply-templates />
             </table:table-cell>
           </xsl:for-each>
+          <!-- all cells are covered by cells of the rows above -->
+          <xsl:if test="not(TableCell)">
+            <table:covered-table-cell>
+              <xsl:attribute name="table:number-columns-repeated"><xsl:value-of select="../@cols"/></xsl:attribute>
+            </table:covered-table-cell>
+          </xsl:if>
         </table:table-row>
       </xsl:for-each>
     </xsl:element>
-- 
2.43.0


From d527ae8fbad6b1062465a6e53977a48b83d15c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:37 +0000
Subject: [PATCH 34/77] fix: text of other shapes and tables in text boxes made
 the ODT invalid

---
 src/hwp5/xsl/odt/common.xsl | 38 +++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/src/hwp5/xsl/odt/common.xsl b/src/hwp5/xsl/odt/common.xsl
index 390e916..6238b44 100644
--- a/src/hwp5/xsl/odt/common.xsl
+++ b/src/hwp5/xsl/odt/common.xsl
@@ -1629,6 +1629,44 @@
     </xsl:element>
   </xsl:template>
 
+  <!-- shapes without an own conversion: keep the text of the text box -->
+  <xsl:template match="ShapeComponent">
+    <xsl:param name="x" />
+    <xsl:param name="y" />
+    <xsl:if test="TextboxParagraphList/Paragraph">
+      <xsl:call-template name="text-box-frame">
+        <xsl:with-param name="x" select="$x" />
+        <xsl:with-param name="y" select="$y" />
+      </xsl:call-template>
+    </xsl:if>
+  </xsl:template>
+
+  <!-- draw:rect can't contain tables -->
+  <xsl:template match="ShapeComponent[@chid='$rec'][TextboxParagraphList//TableControl]" priority="1">
+    <xsl:param name="x" />
+    <xsl:param name="y" />
+    <xsl:call-template name="text-box-frame">
+      <xsl:with-param name="x" select="$x" />
+      <xsl:with-param name="y" select="$y" />
+    </xsl:call-template>
+  </xsl:template>
+
+  <xsl:template name="text-box-frame">
+    <xsl:param name="x" />
+    <xsl:param name="y" />
+    <xsl:element name="draw:frame">
+      <xsl:attribute name="draw:style-name">Shape-<xsl:value-of select="@shape-id + 1"/></xsl:attribute>
+      <xsl:attribute name="svg:x"><xsl:value-of select="round($x div 7200 * 25.4 * 100) div 100"/>mm</xsl:attribute>
+      <xsl:attribute name="svg:y"><xsl:value-of select="round($y div 7200 * 25.4 * 100) div 100"/>mm</xsl:attribute>
+      <xsl:attribute name="svg:width"><xsl:value-of select="round(@width div 7200 * 25.4 * 100) div 100"/>mm</xsl:attribute>
+      <xsl:attribute name="svg:height"><xsl:value-of select="round(@height div 7200 * 25.4 * 100) div 100"/>mm</xsl:attribute>
+      <xsl:apply-templates mode="text-anchor-type" select=".." />
+      <xsl:element name="draw:text-box">
+        <xsl:apply-templates select="TextboxParagraphList/Paragraph" />
+      </xsl:element>
+    </xsl:element>
+  </xsl:template>
+
   <!-- 각주 -->
   <xsl:template match="FootNote">
     <xsl:apply-templates mode="text:note" select="." />
-- 
2.43.0


From 41d731e006114a0b032660cb06b9419d9c436ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:17 +0000
Subject: [PATCH 35/77] fix: ODT style names starting with a digit or empty
 were invalid

---
 src/hwp5/xsl/odt/common.xsl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hwp5/xsl/odt/common.xsl b/src/hwp5/xsl/odt/common.xsl
index 6238b44..aabeae9 100644
--- a/src/hwp5/xsl/odt/common.xsl
+++ b/src/hwp5/xsl/odt/common.xsl
@@ -248,6 +248,8 @@
     <xsl:param name="str" />
     <xsl:variable name="prohibited"> !&quot;#$%&amp;&apos;()*+,/:;&lt;=&gt;?@[\]^`{|}~</xsl:variable>
     <xsl:variable name="replace">______________________________</xsl:variable>
+    <!-- can't be empty or start with a digit, '-' or '.' -->
+    <xsl:if test="translate(substring($str, 1, 1), '0123456789-.', '') = ''">_</xsl:if>
     <xsl:value-of select="translate($str, $prohibited, $replace)" />
   </xsl:template>
 
-- 
2.43.0


From e9050fb7d90dbd0d6d9ec4728cb7b9d765d2ad2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:02 +0000
Subject: [PATCH 36/77] fix: border style of long dashes in CSS

---
 src/hwp5/xsl/hwp5css-common.xsl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/xsl/hwp5css-common.xsl b/src/hwp5/xsl/hwp5css-common.xsl
index c8943ad..e256f2b 100644
--- a/src/hwp5/xsl/hwp5css-common.xsl
+++ b/src/hwp5/xsl/hwp5css-common.xsl
@@ -441,7 +441,7 @@
             <xsl:when test="@stroke-type = 'dotted'">dotted</xsl:when>
             <xsl:when test="@stroke-type = 'dash-dot'">dashed</xsl:when>
             <xsl:when test="@stroke-type = 'dash-dot-dot'">dashed</xsl:when>
-            <xsl:when test="@stroke-type = 'long-dash'">dahsed</xsl:when>
+            <xsl:when test="@stroke-type = 'long-dash'">dashed</xsl:when>
             <xsl:when test="@stroke-type = 'large-dot'">dotted</xsl:when>
             <xsl:when test="@stroke-type = 'double'">double</xsl:when>
             <xsl:when test="@stroke-type = 'double-2'">double</xsl:when>
-- 
2.43.0


From 786dcef6258ef3f2b994e196a390f5b1487b23db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:30 +0000
Subject: [PATCH 37/77] fix: the mimetype is the first file of an ODT package

---
 src/hwp5/hwp5odt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/hwp5odt.py b/src/hwp5/hwp5odt.py
index 2c97622..5f04054 100644
--- a/src/hwp5/hwp5odt.py
+++ b/src/hwp5/hwp5odt.py
@@ -250,6 +250,8 @@ class ODTPackage(object):
         else:
             zipfile = path_or_zipfile
         self.zf = zipfile
+        # should be the first, uncompressed file of the package
+        self.zf.writestr('mimetype', 'application/vnd.oasis.opendocument.text')
 
     def insert_path(self, src_path, path, media_type):
         with io.open(src_path, 'rb') as f:
@@ -267,7 +269,6 @@ class ODTPackage(object):
         manifest_xml(manifest, self.files)
         manifest.seek(0)
         self.zf.writestr('META-INF/manifest.xml', manifest.getvalue())
-        self.zf.writestr('mimetype', 'application/vnd.oasis.opendocument.text')
 
         self.zf.close()
 
-- 
2.43.0


From 8262fea3aff7b1f9de68d878c228e63274c849c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:35 +0000
Subject: [PATCH 38/77] fix: access state of binary data is in bits 8 and 9

---
 src/hwp5/binmodel/tagid18_bin_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/binmodel/tagid18_bin_data.py b/src/hwp5/binmodel/tagid18_bin_data.py
index 5cd94bf..da17ea8 100644
--- a/src/hwp5/binmodel/tagid18_bin_data.py
+++ b/src/hwp5/binmodel/tagid18_bin_data.py
@@ -64,7 +64,7 @@ class BinData(RecordModel):
     Flags = Flags(UINT16,
                   0, 3, StorageType, 'storage',
                   4, 5, CompressionType, 'compression',
-                  16, 17, AccessState, 'access')
+                  8, 9, AccessState, 'access')
 
     def attributes(cls):
         ''' 표 12 바이너리 데이터 '''
-- 
2.43.0


From 7c903b1088bd7a55391e105cecd0922de6e9799e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:52 +0000
Subject: [PATCH 39/77] fix: list nested and empty storages of OLE files

---
 src/hwp5/plat/olefileio.py | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/src/hwp5/plat/olefileio.py b/src/hwp5/plat/olefileio.py
index be3b8a0..9bedbbe 100644
--- a/src/hwp5/plat/olefileio.py
+++ b/src/hwp5/plat/olefileio.py
@@ -143,24 +143,18 @@ class OleStorage(OleStorageItem):
 
 def olefile_listdir(olefile, path):
     if path == '' or path == '/':
-        # we use a list instead of a set
-        # for python 2.3 compatibility
-        yielded = []
-
-        for stream in olefile.listdir():
-            top_item = stream[0]
-            if top_item in yielded:
-                continue
-            yielded.append(top_item)
-            yield top_item
+        for item in olefile.listdir(streams=True, storages=True):
+            if len(item) == 1:
+                yield item[0]
         return
 
     if not olefile.exists(path):
         raise IOError('%s not exists' % path)
     if olefile.get_type(path) != 1:
         raise IOError('%s not a storage' % path)
-    path_segments = path.split('/')
-    for stream in olefile.listdir():
-        if len(stream) == len(path_segments) + 1:
-            if stream[:-1] == path_segments:
-                yield stream[-1]
+    # OleFileIO looks up names case-insensitively
+    path_segments = path.lower().split('/')
+    for item in olefile.listdir(streams=True, storages=True):
+        if len(item) == len(path_segments) + 1:
+            if [name.lower() for name in item[:-1]] == path_segments:
+                yield item[-1]
-- 
2.43.0


From 8ed5d1ccb1a443a7d38f4600d6b6a3090199cd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:52 +0000
Subject: [PATCH 40/77] fix: listing and unlimited reads with the Gsf backend

---
 src/hwp5/plat/gir_gsf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/plat/gir_gsf.py b/src/hwp5/plat/gir_gsf.py
index a3e6a47..524cc6d 100644
--- a/src/hwp5/plat/gir_gsf.py
+++ b/src/hwp5/plat/gir_gsf.py
@@ -52,7 +52,7 @@ def open(path):
 
 
 def listdir(gsfole):
-    for i in xrange(gsfole.num_children()):
+    for i in range(gsfole.num_children()):
         yield gsfole.name_by_index(i)
 
 
@@ -117,7 +117,7 @@ class OleStream:
     def read(self, size=None):
         pos = self.gsfole.tell()
         totalsize = self.gsfole.size
-        if size is not None:
+        if size is not None and size >= 0:
             if pos + size > totalsize:
                 size = totalsize - pos
         else:
-- 
2.43.0


From cf662aca23c36b75d4939a96207925bae643ebf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:59 +0000
Subject: [PATCH 41/77] fix: unpack within the output directory whatever the
 names

---
 src/hwp5/storage/__init__.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/storage/__init__.py b/src/hwp5/storage/__init__.py
index 06b9f24..9f75c2c 100644
--- a/src/hwp5/storage/__init__.py
+++ b/src/hwp5/storage/__init__.py
@@ -121,6 +121,21 @@ def iter_storage_leafs(stg, basepath=''):
             yield path
 
 
+def unpacked_name(name):
+    ''' the filename of an item in an unpacked directory
+
+        The name comes from the document: it should name an entry of the very
+        directory and never lead out of it.
+    '''
+    name = name.replace('\x05', '_05')
+    for sep in (os.sep, os.altsep):
+        if sep:
+            name = name.replace(sep, '_')
+    if name in (os.curdir, os.pardir):
+        name = name.replace('.', '_')
+    return name
+
+
 def unpack(stg, outbase):
     ''' unpack a storage into outbase directory
 
@@ -128,7 +143,7 @@ def unpack(stg, outbase):
         outbase: path to a directory in filesystem (should not end with '/')
     '''
     for name in stg:
-        outpath = os.path.join(outbase, name)
+        outpath = os.path.join(outbase, unpacked_name(name))
         item = stg[name]
         if is_storage(item):
             if not os.path.exists(outpath):
@@ -137,7 +152,6 @@ def unpack(stg, outbase):
         else:
             f = item.open()
             try:
-                outpath = outpath.replace('\x05', '_05')
                 with io.open(outpath, 'wb') as outfile:
                     outfile.write(f.read())
             finally:
-- 
2.43.0


From cbb6e36def02cfa6546eb0db112be2fcf75a6c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:57 +0000
Subject: [PATCH 42/77] fix: read property sets that have no dictionary

---
 src/hwp5/msoleprops.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/msoleprops.py b/src/hwp5/msoleprops.py
index c6b6dad..86a322d 100644
--- a/src/hwp5/msoleprops.py
+++ b/src/hwp5/msoleprops.py
@@ -594,7 +594,10 @@ class PropertySetStreamReader(object):
 
             for propDesc in propDescMap.values():
                 idLabel = idLabels.get(propDesc.id)
-                displayName = dictionary.get(propDesc.id, None)
+                if dictionary is not None:
+                    displayName = dictionary.get(propDesc.id, None)
+                else:
+                    displayName = None
                 propReader = PropertyReader(
                     propsetDesc=propsetDesc,
                     propDesc=propDesc,
-- 
2.43.0


From 9eaefe0a7ef0a93aabc97cf7495e073a8999ba50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:57 +0000
Subject: [PATCH 43/77] fix: exact microseconds of summary dates, and dates out
 of range

---
 src/hwp5/msoleprops.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/msoleprops.py b/src/hwp5/msoleprops.py
index 86a322d..1dcdef3 100644
--- a/src/hwp5/msoleprops.py
+++ b/src/hwp5/msoleprops.py
@@ -91,13 +91,17 @@ class FILETIME(object):
         self.value = value
 
     def __str__(self):
-        return str(self.datetime)
+        try:
+            return str(self.datetime)
+        except OverflowError:
+            # later than the last year of datetime
+            return str(self.value)
 
     @property
     def datetime(self):
         return (
             datetime(1601, 1, 1, 0, 0, 0) +
-            timedelta(microseconds=self.value / 10)
+            timedelta(microseconds=self.value // 10)
         )
 
 
-- 
2.43.0


From 7a813b67968a18305488d5fbc19ce094c0826a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:57 +0000
Subject: [PATCH 44/77] fix: read code page, locale and boolean properties

---
 src/hwp5/msoleprops.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/hwp5/msoleprops.py b/src/hwp5/msoleprops.py
index 1dcdef3..732b432 100644
--- a/src/hwp5/msoleprops.py
+++ b/src/hwp5/msoleprops.py
@@ -32,6 +32,7 @@ from hwp5.dataio import Flags
 from hwp5.dataio import N_ARRAY
 from hwp5.dataio import ARRAY
 from hwp5.dataio import BYTE
+from hwp5.dataio import INT16
 from hwp5.dataio import UINT16
 from hwp5.dataio import UINT32
 from hwp5.dataio import INT32
@@ -54,6 +55,14 @@ def PropertyType(code):
     return decorator
 
 
+@PropertyType(code=0x0002)
+class VT_I2(object):
+
+    @classmethod
+    def read_value(cls, context, f):
+        return read_type(INT16, context, f)
+
+
 @PropertyType(code=0x0003)
 class VT_I4(object):
 
@@ -62,6 +71,22 @@ class VT_I4(object):
         return read_type(INT32, context, f)
 
 
+@PropertyType(code=0x000B)
+class VT_BOOL(object):
+
+    @classmethod
+    def read_value(cls, context, f):
+        return read_type(UINT16, context, f) != 0
+
+
+@PropertyType(code=0x0013)
+class VT_UI4(object):
+
+    @classmethod
+    def read_value(cls, context, f):
+        return read_type(UINT32, context, f)
+
+
 @PropertyType(code=0x001F)
 class VT_LPWSTR(object):
 
-- 
2.43.0


From a47a81ed0e023503c7d63e6f8314302072ffd853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:57 +0000
Subject: [PATCH 45/77] fix: summaryinfo of documents that lack some properties

---
 src/hwp5/summaryinfo.py | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/hwp5/summaryinfo.py b/src/hwp5/summaryinfo.py
index f9b9fbc..7e46fc6 100644
--- a/src/hwp5/summaryinfo.py
+++ b/src/hwp5/summaryinfo.py
@@ -51,18 +51,24 @@ HWP_PROPERTIES = RESERVED_PROPERTIES + SUMMARY_INFORMATION_PROPERTIES + (
 class HwpSummaryInfoTextFormatter(object):
 
     def formatTextLines(self, hwpsummaryinfo):
-        yield 'Title: {}'.format(hwpsummaryinfo.title)
-        yield 'Subject: {}'.format(hwpsummaryinfo.subject)
-        yield 'Author: {}'.format(hwpsummaryinfo.author)
-        yield 'Keywords: {}'.format(hwpsummaryinfo.keywords)
-        yield 'Comments: {}'.format(hwpsummaryinfo.comments)
-        yield 'Last saved by: {}'.format(hwpsummaryinfo.lastSavedBy)
-        yield 'Revision Number: {}'.format(hwpsummaryinfo.revisionNumber)
-        yield 'Last Printed at: {}'.format(hwpsummaryinfo.lastPrintedTime)
-        yield 'Created at: {}'.format(hwpsummaryinfo.createdTime)
-        yield 'Last saved at: {}'.format(hwpsummaryinfo.lastSavedTime)
-        yield 'Number of pages: {}'.format(hwpsummaryinfo.numberOfPages)
-        yield 'Date: {}'.format(hwpsummaryinfo.dateString)
-        yield 'Number of paragraphs: {}'.format(
-            hwpsummaryinfo.numberOfParagraphs
-        )
+        for label, name in (
+            ('Title', 'title'),
+            ('Subject', 'subject'),
+            ('Author', 'author'),
+            ('Keywords', 'keywords'),
+            ('Comments', 'comments'),
+            ('Last saved by', 'lastSavedBy'),
+            ('Revision Number', 'revisionNumber'),
+            ('Last Printed at', 'lastPrintedTime'),
+            ('Created at', 'createdTime'),
+            ('Last saved at', 'lastSavedTime'),
+            ('Number of pages', 'numberOfPages'),
+            ('Date', 'dateString'),
+            ('Number of paragraphs', 'numberOfParagraphs'),
+        ):
+            try:
+                value = getattr(hwpsummaryinfo, name)
+            except KeyError:
+                # not stored in this document
+                continue
+            yield '{}: {}'.format(label, value)
-- 
2.43.0


From b17de7d181ed4e3b3d7f8f6ef749cfd7df57eff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:09 +0000
Subject: [PATCH 46/77] fix: methods that share the name of a cached property
 stay callable

---
 src/hwp5/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/hwp5/utils.py b/src/hwp5/utils.py
index a751c09..da78b03 100644
--- a/src/hwp5/utils.py
+++ b/src/hwp5/utils.py
@@ -47,18 +47,20 @@ class cached_property(object):
         self.func = func
         self.__name__ = func.__name__
         self.__doc__ = func.__doc__
+        # not the very name, which may be that of a method of the object
+        self.key = '_cached_' + func.__name__
 
     def __get__(self, obj, type=None):
         if obj is None:
             return self
-        value = obj.__dict__.get(self.__name__, NIL)
+        value = obj.__dict__.get(self.key, NIL)
         if value is NIL:
             value = self.func(obj)
-            obj.__dict__[self.__name__] = value
+            obj.__dict__[self.key] = value
         return value
 
     def __set__(self, obj, value):
-        obj.__dict__[self.__name__] = value
+        obj.__dict__[self.key] = value
 
 
 def generate_json_array(tokens):
-- 
2.43.0


From 4116f6444ddca36f02583b4138623ce257d10f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:12 +0000
Subject: [PATCH 47/77] fix: report a broken compound file as an invalid one

---
 src/hwp5/plat/olefileio.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/plat/olefileio.py b/src/hwp5/plat/olefileio.py
index 9bedbbe..a4db84c 100644
--- a/src/hwp5/plat/olefileio.py
+++ b/src/hwp5/plat/olefileio.py
@@ -112,7 +112,13 @@ class OleStorage(OleStorageItem):
             if not isOleFile(olefile):
                 errormsg = 'Not an OLE2 Compound Binary File.'
                 raise InvalidOleStorageError(errormsg)
-            olefile = OleFileIO(olefile)
+            try:
+                olefile = OleFileIO(olefile)
+            except Exception as e:
+                # it has the signature, but the content is broken
+                raise InvalidOleStorageError(
+                    'Invalid OLE2 Compound Binary File: %s' % e
+                )
         OleStorageItem.__init__(self, olefile, path, parent)
 
     def __iter__(self):
-- 
2.43.0


From 009cf6f33f1001bdb37c1095f3a8032400225fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:12 +0000
Subject: [PATCH 48/77] fix: a document without a readable FileHeader stream is
 not an HWPv5 file

---
 src/hwp5/filestructure.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/filestructure.py b/src/hwp5/filestructure.py
index f5fc528..a3bc3c8 100644
--- a/src/hwp5/filestructure.py
+++ b/src/hwp5/filestructure.py
@@ -25,6 +25,7 @@ import sys
 
 from .bintype import read_type
 from .compressed import decompress
+from .dataio import Eof, ParseError
 from .dataio import UINT32, Flags, Struct
 from .errors import InvalidOleStorageError
 from .errors import InvalidHwp5FileError
@@ -107,11 +108,19 @@ def storage_is_hwp5file(stg):
     except KeyError:
         logger.info('stg has no FileHeader')
         return False
+    if not is_stream(fileheader):
+        logger.info('FileHeader is not a stream')
+        return False
     fileheader = HwpFileHeader(fileheader)
-    if fileheader.signature == HWP5_SIGNATURE:
+    try:
+        signature = fileheader.signature
+    except (ParseError, Eof, IOError) as e:
+        logger.info('FileHeader is unreadable: %s', e)
+        return False
+    if signature == HWP5_SIGNATURE:
         return True
     else:
-        logger.info('fileheader.signature = %r', fileheader.signature)
+        logger.info('fileheader.signature = %r', signature)
         return False
 
 
-- 
2.43.0


From 1a46143db3ef2873a14cd8cfd0fdb61f08dd726b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:12 +0000
Subject: [PATCH 49/77] fix: hwp5proc --ole reports a file which is not a
 compound file

---
 src/hwp5/hwp5proc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/hwp5proc.py b/src/hwp5/hwp5proc.py
index e03edc4..8374cd6 100644
--- a/src/hwp5/hwp5proc.py
+++ b/src/hwp5/hwp5proc.py
@@ -29,6 +29,7 @@ from . import __version__
 from .cli import init_logger
 from .dataio import ParseError
 from .errors import InvalidHwp5FileError
+from .errors import InvalidOleStorageError
 
 
 PY3 = sys.version_info.major == 3
@@ -80,7 +81,7 @@ def main():
 
     try:
         return subcommand_fn(args)
-    except InvalidHwp5FileError as e:
+    except (InvalidHwp5FileError, InvalidOleStorageError) as e:
         logger.error('%s', e)
         raise SystemExit(1)
     except ParseError as e:
-- 
2.43.0


From 3306d718efb9bd5d7f648b493871ebfa46877a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:12 +0000
Subject: [PATCH 50/77] fix: a failed xsltproc run is not a successful
 transformation

---
 src/hwp5/plat/xsltproc.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/hwp5/plat/xsltproc.py b/src/hwp5/plat/xsltproc.py
index 747f649..179c170 100644
--- a/src/hwp5/plat/xsltproc.py
+++ b/src/hwp5/plat/xsltproc.py
@@ -84,10 +84,9 @@ class XSLT:
         logger.info('%r', cmd)
         p = Popen(cmd)
         p.wait()
-        if p.returncode == 0:
-            return dict()
-        else:
-            return dict(errors=[])
+        if p.returncode != 0:
+            raise CalledProcessError(p.returncode, cmd)
+        return dict()
 
     def transform_into_stream(self, input, output):
         '''
@@ -97,10 +96,9 @@ class XSLT:
         logger.info('%r', cmd)
         p = Popen(cmd, stdout=output)
         p.wait()
-        if p.returncode == 0:
-            return dict()
-        else:
-            return dict(errors=[])
+        if p.returncode != 0:
+            raise CalledProcessError(p.returncode, cmd)
+        return dict()
 
 
 def xslt_compile(xsl_path, **params):
-- 
2.43.0


From 21b060ad52c742e8fa0c82bf27bcab4ea64ce615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:32 +0000
Subject: [PATCH 51/77] fix: xmllint RelaxNG offers validate() and raises
 ValidationFailed, as lxml does

---
 src/hwp5/plat/xmllint.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/plat/xmllint.py b/src/hwp5/plat/xmllint.py
index 2ef1e09..1b749a5 100644
--- a/src/hwp5/plat/xmllint.py
+++ b/src/hwp5/plat/xmllint.py
@@ -24,6 +24,8 @@ from subprocess import CalledProcessError
 import logging
 import subprocess
 
+from ..errors import ValidationFailed
+
 
 logger = logging.getLogger(__name__)
 
@@ -80,6 +82,9 @@ class RelaxNG:
     def __init__(self, rng_path):
         self.rng_path = rng_path
 
+    def validate(self, input):
+        return relaxng(self.rng_path, input)
+
     @contextmanager
     def validating_output(self, output):
         args = [executable, '--relaxng', self.rng_path, '-']
@@ -94,4 +99,4 @@ class RelaxNG:
             p.stdin.close()
             p.wait()
             if p.returncode != 0:
-                raise Exception('RelaxNG validation failed')
+                raise ValidationFailed('RelaxNG')
-- 
2.43.0


From 333f274f1c37340d77042902e50ed7c7766ac497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:32 +0000
Subject: [PATCH 52/77] fix: embed binary data in linear time

---
 src/hwp5/xmlmodel.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/hwp5/xmlmodel.py b/src/hwp5/xmlmodel.py
index 6ee7887..ddf26b0 100644
--- a/src/hwp5/xmlmodel.py
+++ b/src/hwp5/xmlmodel.py
@@ -554,15 +554,7 @@ def embed_bindata(event_prefixed_mac, bindata):
                     bin_stream.close()
                 b64 = base64.b64encode(binary)
                 b64 = b64.decode('ascii')
-                truncated = []
-                while b64:
-                    if len(b64) > 64:
-                        truncated.append(b64[:64])
-                        b64 = b64[64:]
-                    else:
-                        truncated.append(b64)
-                        b64 = ''
-                b64 = '\n'.join(truncated)
+                b64 = '\n'.join(b64[i:i + 64] for i in range(0, len(b64), 64))
                 b64 = '\n' + b64 + '\n'
                 attributes['bindata']['<text>'] = b64
                 attributes['bindata']['inline'] = 'true'
-- 
2.43.0


From e2953c5504e2b217ea8617d8e01498e8612467e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:44 +0000
Subject: [PATCH 53/77] fix: transform and validate documents with large
 embedded data

---
 src/hwp5/plat/_lxml.py    | 12 +++++++++---
 src/hwp5/plat/xmllint.py  |  4 ++--
 src/hwp5/plat/xsltproc.py |  3 ++-
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/hwp5/plat/_lxml.py b/src/hwp5/plat/_lxml.py
index 8ef12dc..db3ff28 100644
--- a/src/hwp5/plat/_lxml.py
+++ b/src/hwp5/plat/_lxml.py
@@ -98,7 +98,7 @@ class XSLT:
         # input, output: binary stream
 
         from lxml import etree
-        source = etree.parse(input)
+        source = etree.parse(input, xml_parser())
         logger.info('_lxml.xslt(%s) start',
                     os.path.basename(self.xsl_path))
         result = self.etree_xslt(source, **self.params)
@@ -110,6 +110,12 @@ class XSLT:
         return dict()
 
 
+def xml_parser():
+    from lxml import etree
+    # embedded images easily exceed the default limits of libxml2
+    return etree.XMLParser(huge_tree=True)
+
+
 def relaxng(rng_path, inp_path):
     relaxng = RelaxNG(rng_path)
     return relaxng.validate(inp_path)
@@ -155,12 +161,12 @@ class RelaxNG:
     def validate(self, input):
         from lxml import etree
         with io.open(input, 'rb') as f:
-            doc = etree.parse(f)
+            doc = etree.parse(f, xml_parser())
         return self._validate(doc)
 
     def validate_stream(self, input):
         from lxml import etree
-        doc = etree.parse(input)
+        doc = etree.parse(input, xml_parser())
         return self._validate(doc)
 
     def _validate(self, doc):
diff --git a/src/hwp5/plat/xmllint.py b/src/hwp5/plat/xmllint.py
index 1b749a5..9823b28 100644
--- a/src/hwp5/plat/xmllint.py
+++ b/src/hwp5/plat/xmllint.py
@@ -67,7 +67,7 @@ def disable():
 
 def relaxng(rng_path, inp_path):
     from subprocess import Popen
-    args = [executable, '--noout', '--relaxng', rng_path, inp_path]
+    args = [executable, '--huge', '--noout', '--relaxng', rng_path, inp_path]
     p = Popen(args)
     p.wait()
     return p.returncode == 0
@@ -87,7 +87,7 @@ class RelaxNG:
 
     @contextmanager
     def validating_output(self, output):
-        args = [executable, '--relaxng', self.rng_path, '-']
+        args = [executable, '--huge', '--relaxng', self.rng_path, '-']
         p = subprocess.Popen(args, stdin=subprocess.PIPE, stdout=output)
         try:
             yield p.stdin
diff --git a/src/hwp5/plat/xsltproc.py b/src/hwp5/plat/xsltproc.py
index 179c170..9ef34cb 100644
--- a/src/hwp5/plat/xsltproc.py
+++ b/src/hwp5/plat/xsltproc.py
@@ -72,7 +72,8 @@ class XSLT:
 
     def __init__(self, xsl_path, **params):
         self.xsl_path = xsl_path
-        self.cmd = [executable]
+        # embedded images easily exceed the default limits of libxml2
+        self.cmd = [executable, '--huge']
         for name, value in params.items():
             self.cmd.extend(['--stringparam', name, value])
 
-- 
2.43.0


From b0ff4462ec7d52abdb43adf0a11edb183c58e0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:48 +0000
Subject: [PATCH 54/77] fix: conversions which fail with a parse error exit
 with a failure status

---
 src/hwp5/hwp5html.py | 1 +
 src/hwp5/hwp5odt.py  | 1 +
 src/hwp5/hwp5txt.py  | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/hwp5/hwp5html.py b/src/hwp5/hwp5html.py
index 73243c3..f1b883a 100644
--- a/src/hwp5/hwp5html.py
+++ b/src/hwp5/hwp5html.py
@@ -152,6 +152,7 @@ def main():
                 transform(hwp5file, dest)
     except ParseError as e:
         e.print_to_logger(logger)
+        sys.exit(1)
     except InvalidHwp5FileError as e:
         logger.error('%s', e)
         sys.exit(1)
diff --git a/src/hwp5/hwp5odt.py b/src/hwp5/hwp5odt.py
index 5f04054..68123cb 100644
--- a/src/hwp5/hwp5odt.py
+++ b/src/hwp5/hwp5odt.py
@@ -366,6 +366,7 @@ def main():
                 transform(hwp5file, dest)
     except ParseError as e:
         e.print_to_logger(logger)
+        sys.exit(1)
     except InvalidHwp5FileError as e:
         logger.error('%s', e)
         sys.exit(1)
diff --git a/src/hwp5/hwp5txt.py b/src/hwp5/hwp5txt.py
index 24b306a..3fa0edc 100644
--- a/src/hwp5/hwp5txt.py
+++ b/src/hwp5/hwp5txt.py
@@ -84,6 +84,7 @@ def main():
                 transform(hwp5file, dest)
     except ParseError as e:
         e.print_to_logger(logger)
+        sys.exit(1)
     except InvalidHwp5FileError as e:
         logger.error('%s', e)
         sys.exit(1)
-- 
2.43.0


From 0cf9146d696bc8908fea7511cab97c15120685a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:48 +0000
Subject: [PATCH 55/77] fix: syntax-highlighted output to a terminal takes
 bytes, e.g. hwp5html --css

---
 src/hwp5/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/utils.py b/src/hwp5/utils.py
index da78b03..b280e7a 100644
--- a/src/hwp5/utils.py
+++ b/src/hwp5/utils.py
@@ -365,7 +365,7 @@ def syntaxhighlight_pygments(mimetype):
 def make_temp_file():
     fd, name = tempfile.mkstemp()
     with unlink_path(name):
-        with os.fdopen(fd, 'w+') as f:
+        with os.fdopen(fd, 'wb+') as f:
             yield f
 
 
-- 
2.43.0


From 4a412eaa7b0acadf99dbf7dc6f58804238b2f96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:47 +0000
Subject: [PATCH 56/77] fix: leaving the pager early is not an error

---
 src/hwp5/utils.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/hwp5/utils.py b/src/hwp5/utils.py
index b280e7a..c386c97 100644
--- a/src/hwp5/utils.py
+++ b/src/hwp5/utils.py
@@ -308,19 +308,28 @@ def output_thru_subprocess(cmd):
             yield output
         else:
             try:
-                yield p.stdin
-            except IOError as e:
-                import errno
-                if e.errno != errno.EPIPE:
-                    raise
+                with ignore_broken_pipe():
+                    try:
+                        yield p.stdin
+                    finally:
+                        p.stdin.close()
             finally:
-                p.stdin.close()
                 p.wait()
                 retcode = p.returncode
                 logger.debug('%r exit %d', cmd, retcode)
     return filter
 
 
+@contextmanager
+def ignore_broken_pipe():
+    import errno
+    try:
+        yield
+    except IOError as e:
+        if e.errno != errno.EPIPE:
+            raise
+
+
 def xmllint(c14n=False, encode=None, format=False, nonet=True):
     cmd = ['xmllint']
     if c14n:
-- 
2.43.0


From 1e1441729ffdd9281b459c95133b38d91ce281a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:47 +0000
Subject: [PATCH 57/77] fix: hwp5proc xml does not ignore a failure of xmllint,
 and allows large embedded data

---
 src/hwp5/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/hwp5/utils.py b/src/hwp5/utils.py
index c386c97..895aa9f 100644
--- a/src/hwp5/utils.py
+++ b/src/hwp5/utils.py
@@ -297,7 +297,7 @@ def null_contextmanager_filter(output):
     yield output
 
 
-def output_thru_subprocess(cmd):
+def output_thru_subprocess(cmd, check=False):
     @contextmanager
     def filter(output):
         logger.debug('%r', cmd)
@@ -317,6 +317,8 @@ def output_thru_subprocess(cmd):
                 p.wait()
                 retcode = p.returncode
                 logger.debug('%r exit %d', cmd, retcode)
+            if check and retcode > 0:
+                raise subprocess.CalledProcessError(retcode, cmd)
     return filter
 
 
@@ -331,7 +333,7 @@ def ignore_broken_pipe():
 
 
 def xmllint(c14n=False, encode=None, format=False, nonet=True):
-    cmd = ['xmllint']
+    cmd = ['xmllint', '--huge']
     if c14n:
         cmd.append('--c14n')
     if encode:
@@ -341,7 +343,7 @@ def xmllint(c14n=False, encode=None, format=False, nonet=True):
     if nonet:
         cmd.append('--nonet')
     cmd.append('-')
-    return output_thru_subprocess(cmd)
+    return output_thru_subprocess(cmd, check=True)
 
 
 def syntaxhighlight(mimetype):
-- 
2.43.0


From f0df33105826a9ad1ecb7b5205283b40cb3aba04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:21 +0000
Subject: [PATCH 58/77] fix: converters refuse to replace their input with the
 output

---
 src/hwp5/hwp5html.py |  9 +++++++--
 src/hwp5/hwp5odt.py  |  9 +++++++--
 src/hwp5/hwp5txt.py  |  5 +++++
 src/hwp5/utils.py    | 16 ++++++++++++++++
 4 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/src/hwp5/hwp5html.py b/src/hwp5/hwp5html.py
index f1b883a..27c3bba 100644
--- a/src/hwp5/hwp5html.py
+++ b/src/hwp5/hwp5html.py
@@ -122,6 +122,7 @@ def main():
     from .dataio import ParseError
     from .errors import InvalidHwp5FileError
     from .utils import make_open_dest_file
+    from .utils import would_destroy
     from .xmlmodel import Hwp5File
 
     argparser = main_argparser()
@@ -132,7 +133,8 @@ def main():
 
     html_transform = HTMLTransform()
 
-    open_dest = make_open_dest_file(args.output)
+    dest_path = args.output
+    open_dest = make_open_dest_file(dest_path)
     if args.css:
         transform = html_transform.transform_hwp5_to_css
         open_dest = wrap_for_css(open_dest)
@@ -141,11 +143,14 @@ def main():
         open_dest = wrap_for_xml(open_dest)
     else:
         transform = html_transform.transform_hwp5_to_dir
-        dest_path = args.output
         if not dest_path:
             dest_path = os.path.splitext(os.path.basename(hwp5path))[0]
         open_dest = partial(open_dir, dest_path)
 
+    if would_destroy(dest_path, hwp5path):
+        logger.error('%s: output would replace the input', hwp5path)
+        sys.exit(1)
+
     try:
         with closing(Hwp5File(hwp5path)) as hwp5file:
             with open_dest() as dest:
diff --git a/src/hwp5/hwp5odt.py b/src/hwp5/hwp5odt.py
index 68123cb..432ce49 100644
--- a/src/hwp5/hwp5odt.py
+++ b/src/hwp5/hwp5odt.py
@@ -328,6 +328,7 @@ def main():
     from .dataio import ParseError
     from .errors import InvalidHwp5FileError
     from .utils import make_open_dest_file
+    from .utils import would_destroy
     from .xmlmodel import Hwp5File
 
     argparser = main_argparser()
@@ -340,7 +341,8 @@ def main():
 
     odt_transform = ODTTransform()
 
-    open_dest = make_open_dest_file(args.output)
+    dest_path = args.output
+    open_dest = make_open_dest_file(dest_path)
     if args.document:
         odt_transform.embedbin = not args.no_embed_image
         transform = odt_transform.transform_hwp5_to_single_document
@@ -356,10 +358,13 @@ def main():
     else:
         odt_transform.embedbin = args.embed_image
         transform = odt_transform.transform_hwp5_to_package
-        dest_path = args.output
         dest_path = dest_path or replace_ext(hwp5path, '.odt')
         open_dest = partial(open_odtpkg, dest_path)
 
+    if would_destroy(dest_path, hwp5path):
+        logger.error('%s: output would replace the input', hwp5path)
+        sys.exit(1)
+
     try:
         with closing(Hwp5File(hwp5path)) as hwp5file:
             with open_dest() as dest:
diff --git a/src/hwp5/hwp5txt.py b/src/hwp5/hwp5txt.py
index 3fa0edc..a010332 100644
--- a/src/hwp5/hwp5txt.py
+++ b/src/hwp5/hwp5txt.py
@@ -31,6 +31,7 @@ from .cli import init_logger
 from .dataio import ParseError
 from .errors import InvalidHwp5FileError
 from .utils import make_open_dest_file
+from .utils import would_destroy
 from .utils import cached_property
 from .transforms import BaseTransform
 from .xmlmodel import Hwp5File
@@ -78,6 +79,10 @@ def main():
     open_dest = make_open_dest_file(args.output)
     transform = text_transform.transform_hwp5_to_text
 
+    if would_destroy(args.output, hwp5path):
+        logger.error('%s: output would replace the input', hwp5path)
+        sys.exit(1)
+
     try:
         with closing(Hwp5File(hwp5path)) as hwp5file:
             with open_dest() as dest:
diff --git a/src/hwp5/utils.py b/src/hwp5/utils.py
index 895aa9f..4f12b49 100644
--- a/src/hwp5/utils.py
+++ b/src/hwp5/utils.py
@@ -239,6 +239,22 @@ def hwp5_resources_path(res_path):
         yield path
 
 
+def would_destroy(dest_path, src_path):
+    ''' Test whether replacing `dest_path` destroys `src_path`.
+
+    :param dest_path: a file to be overwritten or a directory to be removed
+    :param src_path: an input file
+    '''
+    if not dest_path or not os.path.exists(dest_path):
+        return False
+    if not os.path.exists(src_path):
+        return False
+    if os.path.samefile(dest_path, src_path):
+        return True
+    dest_path = os.path.join(os.path.realpath(dest_path), '')
+    return os.path.realpath(src_path).startswith(dest_path)
+
+
 def make_open_dest_file(path):
     if path:
         @contextmanager
-- 
2.43.0


From 239278ca9ad708bd3f3517dd79d0f1ef537da09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:29 +0000
Subject: [PATCH 59/77] fix: hwp5proc find accepts the numbers of tags that
 have no name

---
 src/hwp5/proc/find.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/proc/find.py b/src/hwp5/proc/find.py
index 1e69bf2..8a553d6 100644
--- a/src/hwp5/proc/find.py
+++ b/src/hwp5/proc/find.py
@@ -68,7 +68,7 @@ from ..binmodel import Hwp5File
 from ..binmodel import model_to_json
 from ..bintype import log_events
 from ..dataio import ParseError
-from ..tagids import tagnames
+from ..recordstream import tagname
 
 
 PY2 = sys.version_info.major == 2
@@ -185,7 +185,7 @@ def conditions_from_args(args):
         except ValueError:
             pass
         else:
-            tag = tagnames[tag]
+            tag = tagname(tag)
 
         def with_tag(model):
             return model['tagname'] == tag
-- 
2.43.0


From d85b86717e7e0dde45fd1ca7b9f63947b5fd5704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:29 +0000
Subject: [PATCH 60/77] fix: hwp5proc find --from-stdin takes a last line
 without a newline

---
 src/hwp5/proc/find.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/proc/find.py b/src/hwp5/proc/find.py
index 8a553d6..afcffcb 100644
--- a/src/hwp5/proc/find.py
+++ b/src/hwp5/proc/find.py
@@ -168,7 +168,7 @@ def filenames_from_args(args):
 
 
 def filenames_from_stdin(args):
-    return imap(lambda line: line[:-1], sys.stdin)
+    return imap(lambda line: line.rstrip('\n'), sys.stdin)
 
 
 def conditions_from_args(args):
-- 
2.43.0


From 863ef3dc3e6a502397286654868517ef94a4032a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:13 +0000
Subject: [PATCH 61/77] fix: the flat XML dump reads documents opened through
 GSF

---
 src/hwp5/xmldump_flat.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/xmldump_flat.py b/src/hwp5/xmldump_flat.py
index 4c36b67..68c3cc3 100644
--- a/src/hwp5/xmldump_flat.py
+++ b/src/hwp5/xmldump_flat.py
@@ -19,6 +19,7 @@
 from __future__ import absolute_import
 from __future__ import print_function
 from __future__ import unicode_literals
+from contextlib import closing
 import sys
 
 from .binmodel import ControlChar
@@ -60,7 +61,7 @@ def xmlevents_from_hwp5file(hwp5file):
         'hexversion': hexversion
     })
 
-    with hwp5file.fileheader.open() as f:
+    with closing(hwp5file.fileheader.open()) as f:
         yield STARTEVENT, ('FileHeader', {
         })
         resolve_values = resolve_values_from_stream(f)
-- 
2.43.0


From 9c6135cc61f2d69f6af8bf07c52c16457223ca13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:59 +0000
Subject: [PATCH 62/77] fix: a reader of XML events that stops early is not an
 error

---
 src/hwp5/xmlmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/xmlmodel.py b/src/hwp5/xmlmodel.py
index ddf26b0..9c6d87c 100644
--- a/src/hwp5/xmlmodel.py
+++ b/src/hwp5/xmlmodel.py
@@ -583,7 +583,7 @@ def modelevents_to_xmlevents(modelevents):
                     yield x
             elif event is ENDEVENT:
                 yield ENDEVENT, model.__name__
-        except:
+        except Exception:
             logger.error('model: %s', pformat({
                 'event': event,
                 'model': model,
-- 
2.43.0


From 11d9ff340297c5ff10715a736be215f1e8521e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:18 +0000
Subject: [PATCH 63/77] fix: HTML position of objects centred in a paragraph
 ignored its margins

---
 src/hwp5/xsl/hwp5html.xsl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/xsl/hwp5html.xsl b/src/hwp5/xsl/hwp5html.xsl
index 04855d3..0d616d2 100644
--- a/src/hwp5/xsl/hwp5html.xsl
+++ b/src/hwp5/xsl/hwp5html.xsl
@@ -509,7 +509,9 @@
                   + (문단 왼쪽 여백)                              : 문단 x 축에서 쪽 x축으로
                   -->
                   <xsl:with-param name="hwpunit" select="
-                    ($pagedef/@width - $pagedef/@left-offset - $pagedef/@right-offset) div 2
+                    ($pagedef/@width - $pagedef/@left-offset - $pagedef/@right-offset
+                      - $parashape/@doubled-margin-left div 2
+                      - $parashape/@doubled-margin-right div 2) div 2
                     - @width div 2
                     + @x
                     + $parashape/@doubled-margin-left div 2
-- 
2.43.0


From 15499f1ded947dc7c8dda9d8b8f3cc1b6675e6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:18 +0000
Subject: [PATCH 64/77] fix: HTML positions of objects on landscape pages used
 the portrait width

---
 src/hwp5/xsl/hwp5html.xsl | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/hwp5/xsl/hwp5html.xsl b/src/hwp5/xsl/hwp5html.xsl
index 0d616d2..0d3dc6b 100644
--- a/src/hwp5/xsl/hwp5html.xsl
+++ b/src/hwp5/xsl/hwp5html.xsl
@@ -451,6 +451,7 @@
     <xsl:variable name="columnset" select="$paragraph/.." />
     <xsl:variable name="section" select="$columnset/.." />
     <xsl:variable name="pagedef" select="$section/PageDef" />
+    <xsl:variable name="paper-width" select="$pagedef/@width[$pagedef/@orientation != 'landscape'] | $pagedef/@height[$pagedef/@orientation = 'landscape']" />
     <xsl:text>/*</xsl:text>
     <xsl:text> hrelto: </xsl:text>
     <xsl:value-of select="@hrelto" />
@@ -486,7 +487,7 @@
                   - (쪽 왼쪽 여백)                        : 쪽 x축으로
                   -->
                   <xsl:with-param name="hwpunit" select="
-                    $pagedef/@width
+                    $paper-width
                     - $pagedef/@right-offset - $parashape/@doubled-margin-right div 2
                     - @x
                     - @margin-right - @width
@@ -509,7 +510,7 @@
                   + (문단 왼쪽 여백)                              : 문단 x 축에서 쪽 x축으로
                   -->
                   <xsl:with-param name="hwpunit" select="
-                    ($pagedef/@width - $pagedef/@left-offset - $pagedef/@right-offset
+                    ($paper-width - $pagedef/@left-offset - $pagedef/@right-offset
                       - $parashape/@doubled-margin-left div 2
                       - $parashape/@doubled-margin-right div 2) div 2
                     - @width div 2
@@ -550,7 +551,7 @@
                   - (쪽 왼쪽 여백)                        : 쪽 x축으로
                   -->
                   <xsl:with-param name="hwpunit" select="
-                    $pagedef/@width
+                    $paper-width
                     - $pagedef/@right-offset
                     - @x
                     - @margin-right - @width
@@ -572,7 +573,7 @@
                   + (@x)                             : x만큼 오른쪽
                   -->
                   <xsl:with-param name="hwpunit" select="
-                    ($pagedef/@width - $pagedef/@left-offset - $pagedef/@right-offset) div 2
+                    ($paper-width - $pagedef/@left-offset - $pagedef/@right-offset) div 2
                     - @width div 2
                     + @x
                     " />
@@ -610,7 +611,7 @@
                   - (쪽 왼쪽 여백)                        : 쪽 x축으로
                   -->
                   <xsl:with-param name="hwpunit" select="
-                    $pagedef/@width
+                    $paper-width
                     - $pagedef/@right-offset
                     - @x
                     - @margin-right - @width
@@ -632,7 +633,7 @@
                   + (@x)                             : x만큼 오른쪽
                   -->
                   <xsl:with-param name="hwpunit" select="
-                    ($pagedef/@width - $pagedef/@left-offset - $pagedef/@right-offset) div 2
+                    ($paper-width - $pagedef/@left-offset - $pagedef/@right-offset) div 2
                     - @width div 2
                     + @x
                     " />
@@ -669,7 +670,7 @@
                   - (쪽 왼쪽 여백)                   : 쪽 x축으로
                   -->
                   <xsl:with-param name="hwpunit" select="
-                    $pagedef/@width
+                    $paper-width
                     - @x
                     - @margin-right - @width
                     - $pagedef/@left-offset
@@ -691,7 +692,7 @@
                   - (쪽 왼쪽 여백)                   : 쪽 x축으로
                   -->
                   <xsl:with-param name="hwpunit" select="
-                    $pagedef/@width div 2
+                    $paper-width div 2
                     - @width div 2
                     + @x
                     - $pagedef/@left-offset
-- 
2.43.0


From aee0fc4dddcdf2890a53df2bbb4228a6fce21343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:07 +0000
Subject: [PATCH 65/77] fix: keep the columns of headers and footers in HTML

A paragraph which starts a new column definition is wrapped in a ColumnSet,
in the text lists too; headers and footers lost such paragraphs.
---
 src/hwp5/xsl/hwp5html.xsl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/xsl/hwp5html.xsl b/src/hwp5/xsl/hwp5html.xsl
index 0d3dc6b..834853c 100644
--- a/src/hwp5/xsl/hwp5html.xsl
+++ b/src/hwp5/xsl/hwp5html.xsl
@@ -93,14 +93,14 @@
   <xsl:template match="Header" mode="div">
     <xsl:element name="div">
       <xsl:attribute name="class">HeaderArea</xsl:attribute>
-      <xsl:apply-templates select="HeaderParagraphList/Paragraph" />
+      <xsl:apply-templates select="HeaderParagraphList/Paragraph|HeaderParagraphList/ColumnSet/Paragraph" />
     </xsl:element>
   </xsl:template>
 
   <xsl:template match="Footer" mode="div">
     <xsl:element name="div">
       <xsl:attribute name="class">FooterArea</xsl:attribute>
-      <xsl:apply-templates select="FooterParagraphList/Paragraph" />
+      <xsl:apply-templates select="FooterParagraphList/Paragraph|FooterParagraphList/ColumnSet/Paragraph" />
     </xsl:element>
   </xsl:template>
 
-- 
2.43.0


From dbc56b28303b709246d08fbf28314460e9bdf374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:07 +0000
Subject: [PATCH 66/77] fix: keep the columns of notes and text boxes in ODT

A paragraph which starts a new column definition is wrapped in a ColumnSet,
in the text lists too; notes and text boxes lost such paragraphs.
---
 src/hwp5/xsl/odt/common.xsl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hwp5/xsl/odt/common.xsl b/src/hwp5/xsl/odt/common.xsl
index aabeae9..a05d471 100644
--- a/src/hwp5/xsl/odt/common.xsl
+++ b/src/hwp5/xsl/odt/common.xsl
@@ -1635,7 +1635,7 @@
   <xsl:template match="ShapeComponent">
     <xsl:param name="x" />
     <xsl:param name="y" />
-    <xsl:if test="TextboxParagraphList/Paragraph">
+    <xsl:if test="TextboxParagraphList//Paragraph">
       <xsl:call-template name="text-box-frame">
         <xsl:with-param name="x" select="$x" />
         <xsl:with-param name="y" select="$y" />
@@ -1664,7 +1664,7 @@
       <xsl:attribute name="svg:height"><xsl:value-of select="round(@height div 7200 * 25.4 * 100) div 100"/>mm</xsl:attribute>
       <xsl:apply-templates mode="text-anchor-type" select=".." />
       <xsl:element name="draw:text-box">
-        <xsl:apply-templates select="TextboxParagraphList/Paragraph" />
+        <xsl:apply-templates select="TextboxParagraphList/Paragraph|TextboxParagraphList/ColumnSet/Paragraph" />
       </xsl:element>
     </xsl:element>
   </xsl:template>
@@ -1705,7 +1705,7 @@
 
   <xsl:template mode="text:note-body" match="FootNote|EndNote">
     <xsl:element name="text:note-body">
-      <xsl:apply-templates select="ListHeader/Paragraph" />
+      <xsl:apply-templates select="ListHeader/Paragraph|ListHeader/ColumnSet/Paragraph" />
     </xsl:element>
   </xsl:template>
 
-- 
2.43.0


From 84c1ddcdcd28a1c64817a5f9d8dbed2c68c9b650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:34 +0000
Subject: [PATCH 67/77] fix: report damaged sector tables of an OLE stream as
 an I/O error

olefile raises e.g. OverflowError on them, which escaped from is_hwp5file().
---
 src/hwp5/plat/olefileio.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/plat/olefileio.py b/src/hwp5/plat/olefileio.py
index a4db84c..ce42a8b 100644
--- a/src/hwp5/plat/olefileio.py
+++ b/src/hwp5/plat/olefileio.py
@@ -92,7 +92,13 @@ class OleStorageItem(object):
 class OleStream(OleStorageItem):
 
     def open(self):
-        return self.olefile.openstream(self.path)
+        try:
+            return self.olefile.openstream(self.path)
+        except IOError:
+            raise
+        except Exception as e:
+            # e.g. OverflowError with damaged sector tables
+            raise IOError('%s: %s' % (self.path, e))
 
 
 class OleStorage(OleStorageItem):
-- 
2.43.0


From 8c0ce45eea42d1af552b34199fe871c7bedc2a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:02 +0000
Subject: [PATCH 68/77] fix: take only canonical names of streams as sections

---
 src/hwp5/filestructure.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/filestructure.py b/src/hwp5/filestructure.py
index a3bc3c8..0940ca4 100644
--- a/src/hwp5/filestructure.py
+++ b/src/hwp5/filestructure.py
@@ -364,7 +364,10 @@ class Sections(ItemConversionStorage):
                     except:
                         pass
                     else:
-                        yield idx
+                        # int() takes more than the names of sections,
+                        # e.g. Section01
+                        if idx >= 0 and name == 'Section%d' % idx:
+                            yield idx
         indexes = list(gen())
         indexes.sort()
         return indexes
-- 
2.43.0


From a07eeabf9c35c4bb632a89f6ef2db66765bd7d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:16 +0000
Subject: [PATCH 69/77] fix: raw-deflate StreamReader took a short read for the
 end

---
 src/hwp5/zlib_raw_codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/zlib_raw_codec.py b/src/hwp5/zlib_raw_codec.py
index 8c987bb..30a7ad4 100644
--- a/src/hwp5/zlib_raw_codec.py
+++ b/src/hwp5/zlib_raw_codec.py
@@ -124,7 +124,7 @@ class StreamReader(object):
                 return d
 
             c = self.stream.read(8196)
-            final = len(c) < 8196
+            final = len(c) == 0
             self.buffer += self.decoder.decode(c, final)
 
     def tell(self):
-- 
2.43.0


From f8911fc623a7dcfc4ddc55f7169b2d0b759e402c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:49 +0000
Subject: [PATCH 70/77] fix: incremental decompression took a short read for
 the end

---
 src/hwp5/compressed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/compressed.py b/src/hwp5/compressed.py
index 033bfed..d27601d 100644
--- a/src/hwp5/compressed.py
+++ b/src/hwp5/compressed.py
@@ -48,7 +48,7 @@ def decompress_gen(source, bufsize=4096):
     exausted = False
     while not exausted:
         input = source.read(bufsize)
-        if len(input) < bufsize:
+        if len(input) == 0:
             exausted = True
         yield dec.decode(input, exausted)
 
-- 
2.43.0


From 5395b021261012ab2ea2af66c75f5fac9a6f4ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:25 +0000
Subject: [PATCH 71/77] fix: trees deeper than the recursion limit of Python

Record levels go up to 1023: subtrees were built and walked recursively,
which fails at some hundreds of levels.
---
 src/hwp5/treeop.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/hwp5/treeop.py b/src/hwp5/treeop.py
index 8bbd4e1..8a3be7d 100644
--- a/src/hwp5/treeop.py
+++ b/src/hwp5/treeop.py
@@ -122,12 +122,17 @@ def build_subtree(event_prefixed_items):
                                    (child2, [])])
 
     '''
-    childs = []
+    # lists of children of the items which are not ended yet;
+    # trees can be deeper than the recursion limit
+    stack = [[]]
     for event, item in event_prefixed_items:
         if event == STARTEVENT:
-            childs.append(build_subtree(event_prefixed_items))
+            stack.append([])
         elif event == ENDEVENT:
-            return item, childs
+            subtree = item, stack.pop()
+            if not stack:
+                return subtree
+            stack[-1].append(subtree)
 
 
 def iter_subevents(event_prefixed_items):
@@ -146,15 +151,22 @@ def iter_subevents(event_prefixed_items):
 def tree_events(rootitem, childs):
     ''' generate tuples of (event, item) from a tree
     '''
-    yield STARTEVENT, rootitem
-    for k in tree_events_multi(childs):
-        yield k
-    yield ENDEVENT, rootitem
+    return tree_events_multi([(rootitem, childs)])
 
 
 def tree_events_multi(trees):
     ''' generate tuples of (event, item) from trees
     '''
-    for rootitem, childs in trees:
-        for k in tree_events(rootitem, childs):
-            yield k
+    # (item, its remaining children); trees can be deeper than the recursion
+    # limit
+    stack = [(None, iter(trees))]
+    while stack:
+        item, childs = stack[-1]
+        for child, grandchilds in childs:
+            yield STARTEVENT, child
+            stack.append((child, iter(grandchilds)))
+            break
+        else:
+            stack.pop()
+            if stack:
+                yield ENDEVENT, item
-- 
2.43.0


From 402cc356bed573f5cb6cb199717ff8deca55cffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:25 +0000
Subject: [PATCH 72/77] fix: convert documents with deeply nested text lists

Each level of nested controls took several frames of the stack: a document
with about 200 levels of text lists failed with RecursionError.
---
 src/hwp5/xmlmodel.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/hwp5/xmlmodel.py b/src/hwp5/xmlmodel.py
index 9c6d87c..64c69d8 100644
--- a/src/hwp5/xmlmodel.py
+++ b/src/hwp5/xmlmodel.py
@@ -332,16 +332,24 @@ def make_extended_controls_inline(event_prefixed_mac, stack=None):
     ''' inline extended-controls into paragraph texts '''
     if stack is None:
         stack = []  # stack of ancestor Paragraphs
-    for event, item in event_prefixed_mac:
+    # sources of events: the controls being inlined, outermost first
+    # (they can be nested deeper than the recursion limit)
+    sources = [iter(event_prefixed_mac)]
+    while sources:
+        try:
+            event, item = next(sources[-1])
+        except StopIteration:
+            sources.pop()
+            continue
         model, attributes, context = item
         if model is Paragraph:
             for x in meci_paragraph(event, stack, item):
                 yield x
         elif model is ControlChar:
-            for x in meci_controlchar(event, stack, item, attributes):
+            for x in meci_controlchar(event, stack, item, attributes, sources):
                 yield x
         elif issubclass(model, Control) and event == STARTEVENT:
-            control_subtree = build_subtree(event_prefixed_mac)
+            control_subtree = build_subtree(sources[-1])
             paragraph = stack[-1]
             paragraph_controls = paragraph.setdefault(Control, [])
             paragraph_controls.append(control_subtree)
@@ -358,7 +366,7 @@ def meci_paragraph(event, stack, item):
         stack.pop()
 
 
-def meci_controlchar(event, stack, item, attributes):
+def meci_controlchar(event, stack, item, attributes, sources):
     if event is STARTEVENT:
         if attributes['kind'] is ControlChar.EXTENDED:
             paragraph = stack[-1]
@@ -369,8 +377,7 @@ def meci_controlchar(event, stack, item, attributes):
             # in parse_models_pass3()
             yield next(tev)
 
-            for k in make_extended_controls_inline(tev, stack):
-                yield k
+            sources.append(tev)
         else:
             yield STARTEVENT, item
             yield ENDEVENT, item
-- 
2.43.0


From 1ecd1056f81462ca1bbf5f83f6f927f6d91dc8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:14 +0000
Subject: [PATCH 73/77] fix: dump XML in encodings with a byte order mark or
 without all the characters

---
 src/hwp5/xmlformat.py | 15 +++++++++++++--
 src/hwp5/xmlmodel.py  | 12 ++++++------
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/hwp5/xmlformat.py b/src/hwp5/xmlformat.py
index 1426cf3..b29ffb6 100644
--- a/src/hwp5/xmlformat.py
+++ b/src/hwp5/xmlformat.py
@@ -22,6 +22,7 @@ from __future__ import unicode_literals
 from itertools import chain
 from xml.sax.saxutils import escape
 from xml.sax.saxutils import quoteattr
+import codecs
 import logging
 import re
 import sys
@@ -256,8 +257,18 @@ def element(context, ma):
 
 
 def xmlevents_to_bytechunks(xmlevents, encoding='utf-8'):
-    for textchunk in xmlevents_to_textchunks(xmlevents):
-        yield textchunk.encode(encoding)
+    return encode_textchunks(xmlevents_to_textchunks(xmlevents), encoding)
+
+
+def encode_textchunks(textchunks, encoding):
+    # one encoder for all of the chunks: a byte order mark is written once, and
+    # characters not in the encoding are written as character references
+    encoder = codecs.getincrementalencoder(encoding)('xmlcharrefreplace')
+    for textchunk in textchunks:
+        yield encoder.encode(textchunk)
+    trailer = encoder.encode('', True)
+    if trailer:
+        yield trailer
 
 
 def xmlevents_to_textchunks(xmlevents):
diff --git a/src/hwp5/xmlmodel.py b/src/hwp5/xmlmodel.py
index 64c69d8..5b028e0 100644
--- a/src/hwp5/xmlmodel.py
+++ b/src/hwp5/xmlmodel.py
@@ -56,7 +56,8 @@ from .treeop import build_subtree
 from .treeop import tree_events
 from .treeop import tree_events_multi
 from .xmlformat import startelement
-from .xmlformat import xmlevents_to_bytechunks
+from .xmlformat import encode_textchunks
+from .xmlformat import xmlevents_to_textchunks
 
 
 PY3 = sys.version_info.major == 3
@@ -610,14 +611,13 @@ class XmlEvents(object):
 
     def bytechunks(self, xml_declaration=True, **kwargs):
         encoding = kwargs.get('xml_encoding', 'utf-8')
+        textchunks = xmlevents_to_textchunks(self)
         if xml_declaration:
-            yield '<?xml version="1.0" encoding="{}"?>\n'.format(
-                encoding
-            ).encode(
+            declaration = '<?xml version="1.0" encoding="{}"?>\n'.format(
                 encoding
             )
-        bytechunks = xmlevents_to_bytechunks(self, encoding)
-        for chunk in bytechunks:
+            textchunks = chain([declaration], textchunks)
+        for chunk in encode_textchunks(textchunks, encoding):
             yield chunk
 
     def dump(self, outfile, **kwargs):
-- 
2.43.0


From 413711b301069b4463b58277dae73763adafe6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:07 +0000
Subject: [PATCH 74/77] fix: report that xmllint was killed by a signal

The XML output passes through xmllint; its death by a signal (other than
SIGPIPE, when the reader of the output left) truncated the output with a
successful exit status.
---
 src/hwp5/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/utils.py b/src/hwp5/utils.py
index 4f12b49..cfccb1a 100644
--- a/src/hwp5/utils.py
+++ b/src/hwp5/utils.py
@@ -26,6 +26,7 @@ import logging
 import os
 import shlex
 import shutil
+import signal
 import subprocess
 import sys
 import tempfile
@@ -333,7 +334,8 @@ def output_thru_subprocess(cmd, check=False):
                 p.wait()
                 retcode = p.returncode
                 logger.debug('%r exit %d', cmd, retcode)
-            if check and retcode > 0:
+            # a reader of its output may leave before the end
+            if check and retcode not in (0, -getattr(signal, 'SIGPIPE', 0)):
                 raise subprocess.CalledProcessError(retcode, cmd)
     return filter
 
-- 
2.43.0


From d370dce946d501014643ed516d944e7d55a2c9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:06 +0000
Subject: [PATCH 75/77] fix: skip summary properties of unsupported types
 instead of failing

---
 src/hwp5/msoleprops.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/hwp5/msoleprops.py b/src/hwp5/msoleprops.py
index 732b432..cbecdc4 100644
--- a/src/hwp5/msoleprops.py
+++ b/src/hwp5/msoleprops.py
@@ -301,7 +301,11 @@ class PropertyReader(object):
         context = {}
         propType = read_type(TypedPropertyValue, context, f)
         propType = TypedPropertyValue.fromDict(propType)
-        vt_type = vt_types[propType.code]
+        vt_type = propType.vt_type
+        if vt_type is None:
+            logger.warning('property 0x%08x: unsupported type 0x%04x',
+                           self.propDesc.id, propType.code)
+            return None
         propValue = vt_type.read_value(context, f)
 
         return Property(
@@ -599,9 +603,10 @@ class PropertySetStreamReader(object):
                     displayName=None,
                 )
                 prop = propReader.read(f)
-                properties.append(prop)
+                if prop is not None:
+                    properties.append(prop)
 
-                codepage = prop.value
+                codepage = prop.value if prop is not None else None
             else:
                 codepage = None
 
@@ -635,7 +640,8 @@ class PropertySetStreamReader(object):
                     displayName=displayName,
                 )
                 prop = propReader.read(f)
-                properties.append(prop)
+                if prop is not None:
+                    properties.append(prop)
 
             propertyset = PropertySet(
                 desc=propsetDesc,
-- 
2.43.0


From d6ebeb4ea04a2ecbdfd3f6f51ce7f7430dc38483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:06 +0000
Subject: [PATCH 76/77] fix: report a failed openssl decryption

---
 src/hwp5/plat/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/plat/__init__.py b/src/hwp5/plat/__init__.py
index a23c299..e70bbb2 100644
--- a/src/hwp5/plat/__init__.py
+++ b/src/hwp5/plat/__init__.py
@@ -178,10 +178,13 @@ def get_aes128ecb_decrypt_openssl():
         try:
             p = Popen(args, stdout=subprocess.PIPE)
             try:
-                return p.stdout.read()
+                decrypted = p.stdout.read()
             finally:
                 p.wait()
                 p.stdout.close()
+            if p.returncode:
+                raise subprocess.CalledProcessError(p.returncode, args[:3])
+            return decrypted
         finally:
             os.unlink(name)
 
-- 
2.43.0


From 3a74db8e2f277fe25365065a2420ddc61305da93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:06 +0000
Subject: [PATCH 77/77] fix: package binary data in nested storages into ODT

---
 src/hwp5/hwp5odt.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/hwp5odt.py b/src/hwp5/hwp5odt.py
index 432ce49..89cadf7 100644
--- a/src/hwp5/hwp5odt.py
+++ b/src/hwp5/hwp5odt.py
@@ -143,9 +143,12 @@ class ODTTransform(BaseTransform, ODFValidate):
             self.transform_xhwp5_into_package(xml_path, odtpkg)
 
         if 'BinData' in hwp5file:
+            from .storage import iter_storage_leafs
+            from .storage import open_storage_item
+
             bindata = hwp5file['BinData']
-            for name in bindata:
-                f = bindata[name].open()
+            for name in iter_storage_leafs(bindata):
+                f = open_storage_item(bindata, name).open()
                 path = 'bindata/' + name
                 mimetype = 'application/octet-stream'
                 odtpkg.insert_stream(f, path, mimetype)
-- 
2.43.0

