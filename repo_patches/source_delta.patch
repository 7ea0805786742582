From a10057c756457e6a1b754c3f20ace9e4bda3df9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:25 +0000
Subject: [PATCH 01/32] fix: refuse allocations that are larger than INT_MAX

The size was compared as an int, so huge and negative lengths were
accepted and moved the heap position backwards.
---
 lib/src/pbtools.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index 3c3e857..d2a0ceb 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -77,13 +77,13 @@ static void *heap_alloc(struct pbtools_heap_t *self_p,
                         size_t alignment)
 {
     uintptr_t addr;
-    int left;
+    size_t left;
     size_t rest;
     size_t pad;
 
-    left = (self_p->size - self_p->pos);
+    left = (size_t)(self_p->size - self_p->pos);
 
-    if ((int)size <= left) {
+    if (size <= left) {
         addr = (uintptr_t)&self_p->buf_p[self_p->pos];
         rest = (addr & (alignment - 1));
 
@@ -93,7 +93,7 @@ static void *heap_alloc(struct pbtools_heap_t *self_p,
             pad = (alignment - rest);
             size += pad;
 
-            if ((int)size <= left) {
+            if (size <= left) {
                 addr += pad;
                 self_p->pos += (int)size;
             } else {
-- 
2.43.0


From 7defcf6205dcb187c57c7d53c4458bc6cbf03565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:25 +0000
Subject: [PATCH 02/32] fix: report out of memory when decoding repeated
 messages

The field was silently dropped and the decode reported success.
---
 lib/src/pbtools.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index d2a0ceb..e03e3ea 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -2480,6 +2480,8 @@ void pbtools_decode_repeated_inner(
                                  message_init);
 
     if (res != 0) {
+        decoder_abort(decoder_p, PBTOOLS_OUT_OF_MEMORY);
+
         return;
     }
 
-- 
2.43.0


From affcbf968992ff8811b7735cf84247d8e04e031d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:25 +0000
Subject: [PATCH 03/32] fix: reject packed 32 and 64 bit fields with a partial
 last item

The partial item was written after the end of the allocated items.
---
 lib/src/pbtools.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index e03e3ea..302ec82 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -1300,6 +1300,12 @@ static void repeated_info_decode_32bit(struct pbtools_repeated_info_t *self_p,
 
     case PBTOOLS_WIRE_TYPE_LENGTH_DELIMITED:
         size = (int)decoder_read_length_delimited(decoder_p, wire_type);
+
+        if ((size % 4) != 0) {
+            decoder_abort(decoder_p, PBTOOLS_OUT_OF_DATA);
+            break;
+        }
+
         self_p->length += (size / 4);
         decoder_seek(decoder_p, size);
         break;
@@ -1328,6 +1334,12 @@ static void repeated_info_decode_64bit(struct pbtools_repeated_info_t *self_p,
 
     case PBTOOLS_WIRE_TYPE_LENGTH_DELIMITED:
         size = (int)decoder_read_length_delimited(decoder_p, wire_type);
+
+        if ((size % 8) != 0) {
+            decoder_abort(decoder_p, PBTOOLS_OUT_OF_DATA);
+            break;
+        }
+
         self_p->length += (size / 8);
         decoder_seek(decoder_p, size);
         break;
-- 
2.43.0


From 9bdca60ce81c18c921f692adc89ec2b8618f15f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:25 +0000
Subject: [PATCH 04/32] fix: use all bits of the varint when decoding a bool

Values with the low 32 bits cleared were decoded as false.
---
 lib/src/pbtools.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index 302ec82..8a7923f 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -1200,7 +1200,7 @@ double pbtools_decoder_read_double(struct pbtools_decoder_t *self_p,
 bool pbtools_decoder_read_bool(struct pbtools_decoder_t *self_p,
                                int wire_type)
 {
-    return (pbtools_decoder_read_int32(self_p, wire_type) != 0);
+    return (read_varint_check_wire_type_varint(self_p, wire_type) != 0);
 }
 
 int pbtools_decoder_read_enum(struct pbtools_decoder_t *self_p,
-- 
2.43.0


From da37fe038ab01dde13a5074ec45600992772cbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:25 +0000
Subject: [PATCH 05/32] fix: let a message fill the whole encode buffer

A message of exactly the buffer size did not fit, and an empty message
encoded into a buffer of size zero gave -1 (bad wire type).
---
 lib/src/pbtools.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index 8a7923f..c5c5249 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -113,7 +113,7 @@ static void encoder_init(struct pbtools_encoder_t *self_p,
 {
     self_p->buf_p = buf_p;
     self_p->size = (int)size;
-    self_p->pos = ((int)size - 1);
+    self_p->pos = (int)size;
 }
 
 static int encoder_get_result(struct pbtools_encoder_t *self_p)
@@ -121,9 +121,9 @@ static int encoder_get_result(struct pbtools_encoder_t *self_p)
     int length;
 
     if (self_p->pos >= 0) {
-        length = (self_p->size - self_p->pos - 1);
+        length = (self_p->size - self_p->pos);
         memmove(self_p->buf_p,
-                &self_p->buf_p[self_p->pos + 1],
+                &self_p->buf_p[self_p->pos],
                 (size_t)length);
     } else {
         length = self_p->pos;
@@ -147,7 +147,7 @@ static void encoder_write(struct pbtools_encoder_t *self_p,
 {
     if (self_p->pos >= size) {
         self_p->pos -= size;
-        memcpy(&self_p->buf_p[self_p->pos + 1], buf_p, (size_t)size);
+        memcpy(&self_p->buf_p[self_p->pos], buf_p, (size_t)size);
     } else {
         encoder_abort(self_p, PBTOOLS_ENCODE_BUFFER_FULL);
     }
-- 
2.43.0


From 1ee67ac2d8d2cd24df965ec5f7e1893a7ce481ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:25 +0000
Subject: [PATCH 06/32] fix: align the heap in an unaligned workspace

The workspace is typically an array of uint8_t, which may have any
alignment.
---
 lib/src/pbtools.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index c5c5249..04e13fc 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -59,8 +59,13 @@ static struct pbtools_heap_t *heap_new(void *buf_p,
                                        size_t size)
 {
     struct pbtools_heap_t *heap_p;
+    size_t pad;
+
+    pad = (-(uintptr_t)buf_p & (alignof(struct pbtools_heap_t) - 1));
 
-    if (size >= sizeof(*heap_p)) {
+    if (size >= (sizeof(*heap_p) + pad)) {
+        buf_p = ((uint8_t *)buf_p + pad);
+        size -= pad;
         heap_p = (struct pbtools_heap_t *)buf_p;
         heap_p->buf_p = buf_p;
         heap_p->size = (int)size;
-- 
2.43.0


From f4e6b3e0cdc8ebc3ffa163a9718e832a12b4d1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:25 +0000
Subject: [PATCH 07/32] fix: no signed overflow for INT_MIN in
 pbtools_error_code_to_string()

---
 lib/src/pbtools.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index 04e13fc..155bb25 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -2611,7 +2611,7 @@ const char *pbtools_error_code_to_string(int code)
 {
     const char *string_p;
 
-    if (code < 0) {
+    if ((code < 0) && (code > INT_MIN)) {
         code *= -1;
     }
 
-- 
2.43.0


From ea7b75b8e3d389aec51572b7f0fb074b851e395a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:25 +0000
Subject: [PATCH 08/32] fix: keep the items of a repeated field when allocation
 fails

The items pointer became NULL while the length was kept, so that later
encoding crashed.
---
 lib/src/pbtools.c | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index 155bb25..b127883 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -1443,15 +1443,17 @@ static int calloc_repeated(struct pbtools_message_base_t *self_p,
                            size_t item_size)
 {
     size_t size;
+    void *items_p;
 
     size = (item_size * (size_t)length);
-    repeated_p->items_p = heap_alloc(self_p->heap_p, size, alignof(uint64_t));
+    items_p = heap_alloc(self_p->heap_p, size, alignof(uint64_t));
 
-    if (repeated_p->items_p == NULL) {
+    if (items_p == NULL) {
         return (-1);
     }
 
-    memset(repeated_p->items_p, 0, size);
+    memset(items_p, 0, size);
+    repeated_p->items_p = items_p;
     repeated_p->length = length;
 
     return (0);
@@ -2185,19 +2187,21 @@ int pbtools_alloc_repeated_string(struct pbtools_message_base_t *self_p,
                                   struct pbtools_repeated_string_t *repeated_p)
 {
     int pos;
+    char **items_pp;
 
-    repeated_p->items_pp = heap_alloc(self_p->heap_p,
-                                      sizeof(*repeated_p->items_pp) * (size_t)length,
-                                      alignof(uint64_t));
+    items_pp = heap_alloc(self_p->heap_p,
+                          sizeof(*repeated_p->items_pp) * (size_t)length,
+                          alignof(uint64_t));
 
-    if (repeated_p->items_pp == NULL) {
+    if (items_pp == NULL) {
         return (-1);
     }
 
     for (pos = 0; pos < length; pos++) {
-        repeated_p->items_pp[pos] = "";
+        items_pp[pos] = "";
     }
 
+    repeated_p->items_pp = items_pp;
     repeated_p->length = length;
 
     return (0);
@@ -2408,22 +2412,24 @@ int pbtools_alloc_repeated(
 {
     int i;
     char *item_p;
+    void *items_p;
 
-    repeated_p->items_p = heap_alloc(heap_p,
-                                     item_size * (size_t)length,
-                                     alignof(uint64_t));
+    items_p = heap_alloc(heap_p,
+                         item_size * (size_t)length,
+                         alignof(uint64_t));
 
-    if (repeated_p->items_p == NULL) {
+    if (items_p == NULL) {
         return (-1);
     }
 
-    item_p = repeated_p->items_p;
+    item_p = items_p;
 
     for (i = 0; i < length; i++) {
         message_init(item_p, heap_p);
         item_p += item_size;
     }
 
+    repeated_p->items_p = items_p;
     repeated_p->length = length;
 
     return (0);
-- 
2.43.0


From 1d187a7795a41e1166a4f115bfe5453b258f9e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:14 +0000
Subject: [PATCH 09/32] fix: handle comment markers in strings and lines in
 comments

Comment markers inside string literals are not comments. Keep newlines
of multi-line comments so that parse errors are reported on the right
line. A string ends after an escaped backslash.
---
 pbtools/parser.py | 76 +++++++++++++++++++++++------------------------
 1 file changed, 37 insertions(+), 39 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 3437d9c..d93c7b3 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -32,6 +32,9 @@ SCALAR_VALUE_TYPES = [
 ]
 
 
+STRING_PATTERN = r'"(?:\\.|[^"\\\n])*"'
+
+
 class InternalError(Exception):
     pass
 
@@ -57,55 +60,50 @@ def format_parse_error(string, offset):
     return str(ParseError(string, offset))
 
 
+def blank(string):
+    """Replace everything but newlines with spaces.
+
+    """
+
+    return re.sub(r'[^\n]', ' ', string)
+
+
 def ignore_comments(string):
     """Ignore comments in given string by replacing them with spaces. This
     reduces the parsing time by roughly a factor of two.
 
     """
 
-    comments = [
-        (mo.start(), mo.group(0))
-        for mo in re.finditer(r'(/\*|\*/|//|\n)', string)
-    ]
-
-    comments.sort()
-
-    in_single_line_comment = False
-    in_multi_line_comment = False
-    start_offset = 0
+    re_comment = re.compile(STRING_PATTERN + r'|/\*|//')
+    re_multi_line_comment = re.compile(r'/\*|\*/')
     non_comment_offset = 0
     chunks = []
+    mo = re_comment.search(string)
+
+    while mo:
+        start_offset = mo.start()
+        offset = mo.end()
+
+        if mo.group(0) == '//':
+            offset = string.find('\n', start_offset)
+
+            if offset == -1:
+                offset = len(string)
+        elif mo.group(0) == '/*':
+            mo = re_multi_line_comment.search(string, offset)
 
-    for offset, kind in comments:
-        if in_single_line_comment:
-            if kind == '\n':
-                in_single_line_comment = False
-                chunks.append(' ' * (offset - start_offset))
-                non_comment_offset = offset
-        elif in_multi_line_comment:
-            if kind == '/*':
+            if mo is None or mo.group(0) == '/*':
                 raise Error(format_parse_error(string, start_offset))
-            elif kind == '*/':
-                in_multi_line_comment = False
-                offset += 2
-                chunks.append(' ' * (offset - start_offset))
-                non_comment_offset = offset
-        elif kind == '//':
-            in_single_line_comment = True
-            start_offset = offset
-            chunks.append(string[non_comment_offset:start_offset])
-        elif kind == '/*':
-            in_multi_line_comment = True
-            start_offset = offset
-            chunks.append(string[non_comment_offset:start_offset])
-
-    if in_single_line_comment:
-        offset = len(string)
-        chunks.append(' ' * (offset - start_offset))
-        non_comment_offset = offset
 
-    if in_multi_line_comment:
-        raise Error(format_parse_error(string, start_offset))
+            offset = mo.end()
+        else:
+            mo = re_comment.search(string, offset)
+            continue
+
+        chunks.append(string[non_comment_offset:start_offset])
+        chunks.append(blank(string[start_offset:offset]))
+        non_comment_offset = offset
+        mo = re_comment.search(string, offset)
 
     chunks.append(string[non_comment_offset:])
 
@@ -144,7 +142,7 @@ class Parser(textparser.Parser):
             ('IDENT',         r'[a-zA-Z]\w*'),
             ('INT',           r'-?(0[xX][a-fA-F0-9]+|[0-9]+)'),
             ('PROTO3',        r'"proto3"'),
-            ('STRING',        r'"(\\"|[^"])*?"'),
+            ('STRING',        STRING_PATTERN),
             ('DOT',      '.', r'\.'),
             ('COMMA',    ',', r','),
             ('EQ',       '=', r'='),
-- 
2.43.0


From b6ec2338a32e1f3c0f30b9d0994bdc4329e13d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:01 +0000
Subject: [PATCH 10/32] fix: parse hexadecimal and octal integers

They are allowed by the grammar, but failed (hexadecimal) or were read as
decimal (octal).
---
 pbtools/parser.py | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index d93c7b3..a6b79e6 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -56,6 +56,26 @@ def camel_to_snake_case(value):
     return value
 
 
+def load_integer(string):
+    """Load a decimal, octal (leading zero) or hexadecimal integer.
+
+    """
+
+    digits = string.lstrip('-')
+
+    if digits[:2] in ['0x', '0X']:
+        base = 16
+    elif digits[0] == '0':
+        base = 8
+    else:
+        base = 10
+
+    try:
+        return int(string, base)
+    except ValueError:
+        raise Error(f"'{string}' is not an integer.")
+
+
 def format_parse_error(string, offset):
     return str(ParseError(string, offset))
 
@@ -315,7 +335,7 @@ class EnumField:
 
     def __init__(self, tokens):
         self.name = tokens[0]
-        self.field_number = int(tokens[2])
+        self.field_number = load_integer(tokens[2])
 
     @property
     def name_snake_case(self):
@@ -350,7 +370,7 @@ class OneofField(Field):
     def __init__(self, tokens):
         super().__init__(load_message_type(tokens[0]),
                          tokens[1],
-                         int(tokens[3]))
+                         load_integer(tokens[3]))
 
 
 class Oneof:
@@ -394,7 +414,7 @@ class MessageField(Field):
 
         return cls(load_message_type(tokens[1]),
                    tokens[2],
-                   int(tokens[4]),
+                   load_integer(tokens[4]),
                    repeated,
                    optional)
 
@@ -435,7 +455,7 @@ class Message:
         key_type = tokens[2]
         value_type = load_message_type(tokens[4])[-1]
         name = tokens[6]
-        field_number = int(tokens[8])
+        field_number = load_integer(tokens[8])
         map_type = f'PbtoolsMap{name.title()}'
         map_message_tokens = [
             'message',
-- 
2.43.0


From 9b2b5a0044ae47a5d533553e4989528254b11406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:01 +0000
Subject: [PATCH 11/32] fix: use the whole value of integer and identifier
 options

Only the first digit or the first part of the identifier was used.
---
 pbtools/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index a6b79e6..8690a07 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -323,9 +323,9 @@ class Option:
         elif kind == 'bool':
             value = (value == 'true')
         elif kind == 'ident':
-            value = value[0]
+            value = '.'.join(value)
         elif kind == 'integer':
-            value = int(value[0])
+            value = load_integer(value)
 
         self.kind = kind
         self.value = value
-- 
2.43.0


From 598c031e9ca6fa81c9eb8ba2b282050ce39a4dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:01 +0000
Subject: [PATCH 12/32] fix: accept "proto3" wherever a string is allowed

---
 pbtools/parser.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 8690a07..b191852 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -184,11 +184,12 @@ class Parser(textparser.Parser):
     def grammar(self):
         ident = choice('IDENT', *self.KEYWORDS)
         full_ident = DelimitedList(ident, '.')
+        string = choice('STRING', 'PROTO3')
         empty_statement = ';'
         message_type = Sequence(Optional('.'), full_ident)
         constant = choice(Tag('bool', choice('true', 'false')),
                           Tag('ident', full_ident),
-                          Tag('string', 'STRING'),
+                          Tag('string', string),
                           Tag('integer', 'INT'))
         option_name = Sequence(choice(ident,
                                       Sequence('(', full_ident, ')')),
@@ -201,7 +202,7 @@ class Parser(textparser.Parser):
         # Import.
         import_ = Sequence('import',
                            Optional(choice('weak', 'public')),
-                           'STRING')
+                           string)
 
         # Package.
         package = Sequence('package', full_ident, ';')
@@ -234,7 +235,7 @@ class Parser(textparser.Parser):
                                       Optional(Sequence('to',
                                                         choice('INT', 'max'))))
         reserved = Sequence('reserved', choice(DelimitedList(field_number_range),
-                                               DelimitedList('STRING')))
+                                               DelimitedList(string)))
 
         # Message.
         field = Sequence(Optional(choice('repeated', 'optional')),
-- 
2.43.0


From 0270e168b1e5b629cda5e99c929ee5bbb295a718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:07 +0000
Subject: [PATCH 13/32] fix: require a semicolon after import and reserved

---
 pbtools/parser.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index b191852..363aa20 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -202,7 +202,8 @@ class Parser(textparser.Parser):
         # Import.
         import_ = Sequence('import',
                            Optional(choice('weak', 'public')),
-                           string)
+                           string,
+                           ';')
 
         # Package.
         package = Sequence('package', full_ident, ';')
@@ -234,8 +235,10 @@ class Parser(textparser.Parser):
         field_number_range = Sequence('INT',
                                       Optional(Sequence('to',
                                                         choice('INT', 'max'))))
-        reserved = Sequence('reserved', choice(DelimitedList(field_number_range),
-                                               DelimitedList(string)))
+        reserved = Sequence('reserved',
+                            choice(DelimitedList(field_number_range),
+                                   DelimitedList(string)),
+                            ';')
 
         # Message.
         field = Sequence(Optional(choice('repeated', 'optional')),
-- 
2.43.0


From 9f0301253070364dd90aaea5e30d760508edcd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:07 +0000
Subject: [PATCH 14/32] fix: accept empty statements in enums and oneofs, and
 service options

The parser accepts them, but loading them raised an exception.
---
 pbtools/parser.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 363aa20..20b720d 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -354,7 +354,8 @@ class Enum:
         self.namespace = namespace
 
         for item in tokens[3]:
-            self.fields.append(EnumField(item))
+            if item != ';':
+                self.fields.append(EnumField(item))
 
     @property
     def namespace_snake_case(self):
@@ -385,7 +386,8 @@ class Oneof:
         self.namespace = namespace
 
         for item in tokens[3]:
-            self.fields.append(OneofField(item))
+            if item != ';':
+                self.fields.append(OneofField(item))
 
     @property
     def full_name(self):
@@ -533,7 +535,7 @@ class Service:
 
             if kind == 'rpc':
                 self.rpcs.append(Rpc(item))
-            elif kind == ';':
+            elif kind in ['option', ';']:
                 pass
             else:
                 raise InternalError(kind)
-- 
2.43.0


From aed21a94a236d989bec8326044a9c84f9531fb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:07 +0000
Subject: [PATCH 15/32] fix: use the whole name of request and response types

Only the first part of a qualified name was used.
---
 pbtools/parser.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 20b720d..362c6ce 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -518,9 +518,9 @@ class Rpc:
 
     def __init__(self, tokens):
         self.name = tokens[1]
-        self.request_type = tokens[4][1][0]
+        self.request_type = load_rpc_type(tokens[4])
         self.request_stream = bool(tokens[3])
-        self.response_type = tokens[9][1][0]
+        self.response_type = load_rpc_type(tokens[9])
         self.response_stream = bool(tokens[8])
 
 
@@ -787,6 +787,10 @@ def load_message_type(tokens):
     return tokens[1]
 
 
+def load_rpc_type(tokens):
+    return ''.join(tokens[0]) + '.'.join(tokens[1])
+
+
 def load_package(tokens):
     try:
         return '.'.join(tokens[1]['package'][0][1])
-- 
2.43.0


From 5ff71215f9aca651f4b5dd8619768a110319680e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:07 +0000
Subject: [PATCH 16/32] fix: reject map key types that are not allowed

---
 pbtools/parser.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 362c6ce..8d9cdc5 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -35,6 +35,13 @@ SCALAR_VALUE_TYPES = [
 STRING_PATTERN = r'"(?:\\.|[^"\\\n])*"'
 
 
+MAP_KEY_TYPES = [
+    type
+    for type in SCALAR_VALUE_TYPES
+    if type not in ['float', 'double', 'bytes']
+]
+
+
 class InternalError(Exception):
     pass
 
@@ -459,6 +466,10 @@ class Message:
 
     def _load_map(self, tokens, sub_namespace):
         key_type = tokens[2]
+
+        if key_type not in MAP_KEY_TYPES:
+            raise Error(f"'{key_type}' is not a valid map key type.")
+
         value_type = load_message_type(tokens[4])[-1]
         name = tokens[6]
         field_number = load_integer(tokens[8])
-- 
2.43.0


From bb06432e43f6a308315add186df726177d6be51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:52 +0000
Subject: [PATCH 17/32] fix: find types as proto3 scoping prescribes

Nested types of other messages and of imported files, names with a
leading dot, names relative to an outer scope or package and qualified
map value types were not found, or the wrong type was used.
---
 pbtools/parser.py | 155 ++++++++++++++++++++++++++--------------------
 1 file changed, 89 insertions(+), 66 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 8d9cdc5..6fa1566 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -470,7 +470,6 @@ class Message:
         if key_type not in MAP_KEY_TYPES:
             raise Error(f"'{key_type}' is not a valid map key type.")
 
-        value_type = load_message_type(tokens[4])[-1]
         name = tokens[6]
         field_number = load_integer(tokens[8])
         map_type = f'PbtoolsMap{name.title()}'
@@ -478,7 +477,7 @@ class Message:
             'message',
             map_type, '{', [
                 ('field', [[], [[], [key_type]], 'key', '=', '1', [], ';']),
-                ('field', [[], [[], [value_type]], 'value', '=', '2', [], ';'])
+                ('field', [[], tokens[4], 'value', '=', '2', [], ';'])
             ], '}'
         ]
         self.messages.append(Message(map_message_tokens, sub_namespace))
@@ -552,6 +551,20 @@ class Service:
                 raise InternalError(kind)
 
 
+def find_types(package, messages, enums):
+    """Returns a dictionary of all given types, including nested types.
+    Full type name as key and package and type as value.
+
+    """
+
+    types = {type.full_name: (package, type) for type in messages + enums}
+
+    for message in messages:
+        types.update(find_types(package, message.messages, message.enums))
+
+    return types
+
+
 class ImportedProto:
 
     def __init__(self, tokens, import_paths):
@@ -571,6 +584,10 @@ class ImportedProto:
             tokens[1]
             for tokens in tree[1].get('message', [])
         ]
+        namespace = load_namespace(self.package)
+        self.types = find_types(self.package,
+                                load_messages(tree, namespace),
+                                load_enums(tree, namespace))
 
     @property
     def type_names(self):
@@ -592,6 +609,8 @@ class Proto:
         self._messages = load_messages(tree, namespace)
         self._services = load_services(tree)
         self._enums = load_enums(tree, namespace)
+        self._types = self.load_types()
+        self._package_names = self.load_package_names()
         self.messages_stack = []
         self.resolve_messages_fields_types()
         self.resolve_messages_fields_type_kinds()
@@ -653,10 +672,29 @@ class Proto:
         return type_names
 
     def namespace_base(self):
-        if self._package is None:
-            return []
-        else:
-            return [self._package]
+        return load_namespace(self._package)
+
+    def load_types(self):
+        types = {}
+
+        for imported in self._imports:
+            types.update(imported.types)
+
+        types.update(find_types(self._package, self._messages, self._enums))
+
+        return types
+
+    def load_package_names(self):
+        names = set()
+
+        for package in [self._package] + [i.package for i in self._imports]:
+            if package is not None:
+                parts = package.split('.')
+
+                for i in range(len(parts)):
+                    names.add('.'.join(parts[:i + 1]))
+
+        return names
 
     def resolve_messages_fields_types(self):
         for message in self._messages:
@@ -684,31 +722,38 @@ class Proto:
         self.messages_stack.pop()
 
     def resolve_field_type(self, field):
-        if field.namespace:
-            return
-
-        for message in reversed(self.messages_stack):
-            if field.type in message.type_names:
-                namespace = message.namespace + [message.name]
-                package = self._package
-                break
+        """Find the type in the innermost scope, as protoc does. If the type
+        name has many parts, the first part is searched for.
+
+        """
+
+        name = field.namespace + [field.type]
+
+        if name[0] == '':
+            full_name = '.'.join(name[1:])
         else:
-            if field.type in self.type_names:
-                namespace = self.namespace_base()
-                package = self._package
-            else:
-                for imported in self._imports:
-                    if imported.package == self._package:
-                        if field.type in imported.type_names:
-                            namespace = self.namespace_base()
-                            package = self._package
-                            break
-                else:
-                    namespace = []
-                    package = None
-
-        field.namespace = namespace
-        field.package = package
+            scope = self.messages_stack[-1].full_name.split('.')
+
+            for i in range(len(scope), -1, -1):
+                full_name = '.'.join(scope[:i] + name)
+                first = '.'.join(scope[:i] + name[:1])
+
+                if first in self._types:
+                    break
+
+                if len(name) > 1 and first in self._package_names:
+                    # ToDo: A full name is used even if the name is
+                    #       found in an outer package of this package.
+                    if '.'.join(name) in self._types:
+                        full_name = '.'.join(name)
+
+                    break
+
+        if full_name not in self._types:
+            raise Error(f"'{'.'.join(name)}' is not defined.")
+
+        field.package, type = self._types[full_name]
+        field.namespace = type.namespace
 
     def resolve_messages_fields_type_kinds(self):
         for message in self._messages:
@@ -738,41 +783,7 @@ class Proto:
             field.type_kind = 'message'
 
     def is_field_enum(self, field):
-        for imported in self._imports:
-            if field.package == imported.package:
-                if field.type in imported.enums:
-                    return True
-                elif field.type in imported.messages:
-                    return False
-
-        if field.package == self._package:
-            offset = len(self.namespace_base())
-            type = self.lookup_type(field.namespace[offset:] + [field.type],
-                                    self._enums,
-                                    self._messages)
-
-            return isinstance(type, Enum)
-
-        raise Error(f"'{field.type}' is not defined.")
-
-    def lookup_type(self, path, enums, messages):
-        name = path[0]
-        rest = path[1:]
-
-        if rest:
-            for message in messages:
-                if message.name == name:
-                    return self.lookup_type(rest,
-                                            message.enums,
-                                            message.messages)
-        else:
-            for enum in enums:
-                if enum.name == name:
-                    return enum
-
-            for message in messages:
-                if message.name == name:
-                    return message
+        return isinstance(self._types[field.full_type][1], Enum)
 
     def sort_messages_by_usage(self, messages):
         reversed_sorted_messages = []
@@ -795,7 +806,12 @@ class Proto:
 
 
 def load_message_type(tokens):
-    return tokens[1]
+    """Returns the parts of the type name. The first part is empty if the
+    name has a leading dot.
+
+    """
+
+    return [''] * len(tokens[0]) + tokens[1]
 
 
 def load_rpc_type(tokens):
@@ -809,6 +825,13 @@ def load_package(tokens):
         return None
 
 
+def load_namespace(package):
+    if package is None:
+        return []
+    else:
+        return [package]
+
+
 def load_imports(tokens, import_paths):
     return [
         ImportedProto(imported, import_paths)
-- 
2.43.0


From 2baa39b882e49bb2e4163d13ae09b3301fc54856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:41 +0000
Subject: [PATCH 18/32] fix: ignore options and reserved everywhere they are
 allowed

Options in messages, enums, oneofs and on oneof fields, reserved in
enums and empty statements in rpcs were syntax errors.
---
 pbtools/parser.py | 43 +++++++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 6fa1566..13ffef7 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -218,35 +218,40 @@ class Parser(textparser.Parser):
         # Option.
         option = Sequence('option', option_name, '=', constant, ';')
 
+        # Reserved.
+        field_number_range = Sequence('INT',
+                                      Optional(Sequence('to',
+                                                        choice('INT', 'max'))))
+        reserved = Sequence('reserved',
+                            choice(DelimitedList(field_number_range),
+                                   DelimitedList(string)),
+                            ';')
+
         # Enum.
         enum_field = Sequence(ident, '=', 'INT', options, ';')
         enum = Sequence('enum',
                         ident,
                         '{',
-                        ZeroOrMore(choice(enum_field, empty_statement)),
+                        ZeroOrMore(choice(Tag('field', enum_field),
+                                          option,
+                                          reserved,
+                                          empty_statement)),
                         '}')
 
         # Oneof.
-        oneof_field = Sequence(message_type, ident, '=', 'INT', ';')
+        oneof_field = Sequence(message_type, ident, '=', 'INT', options, ';')
         oneof = Sequence('oneof',
                          ident,
                          '{',
-                         ZeroOrMore(choice(oneof_field, empty_statement)),
+                         ZeroOrMore(choice(Tag('field', oneof_field),
+                                           option,
+                                           empty_statement)),
                          '}')
 
         # Map.
         map_field = Sequence('map', '<', ident, ',', message_type, '>',
                              ident, '=', 'INT', options, ';')
 
-        # Reserved.
-        field_number_range = Sequence('INT',
-                                      Optional(Sequence('to',
-                                                        choice('INT', 'max'))))
-        reserved = Sequence('reserved',
-                            choice(DelimitedList(field_number_range),
-                                   DelimitedList(string)),
-                            ';')
-
         # Message.
         field = Sequence(Optional(choice('repeated', 'optional')),
                          message_type, ident, '=', 'INT', options, ';')
@@ -259,6 +264,7 @@ class Parser(textparser.Parser):
                                                message,
                                                oneof,
                                                map_field,
+                                               option,
                                                reserved,
                                                empty_statement)),
                              '}')
@@ -271,7 +277,8 @@ class Parser(textparser.Parser):
                        'returns',
                        '(', Optional('stream'), message_type, ')',
                        choice(Sequence('{',
-                                       ZeroOrMore(option),
+                                       ZeroOrMore(choice(option,
+                                                         empty_statement)),
                                        '}'),
                               ';'))
         service = Sequence('service',
@@ -361,8 +368,8 @@ class Enum:
         self.namespace = namespace
 
         for item in tokens[3]:
-            if item != ';':
-                self.fields.append(EnumField(item))
+            if item[0] == 'field':
+                self.fields.append(EnumField(item[1]))
 
     @property
     def namespace_snake_case(self):
@@ -393,8 +400,8 @@ class Oneof:
         self.namespace = namespace
 
         for item in tokens[3]:
-            if item != ';':
-                self.fields.append(OneofField(item))
+            if item[0] == 'field':
+                self.fields.append(OneofField(item[1]))
 
     @property
     def full_name(self):
@@ -459,7 +466,7 @@ class Message:
                 self.oneofs.append(Oneof(item, sub_namespace))
             elif kind == 'map':
                 self._load_map(item, sub_namespace)
-            elif kind in ['reserved', ';']:
+            elif kind in ['option', 'reserved', ';']:
                 pass
             else:
                 raise InternalError(kind)
-- 
2.43.0


From 17f2d8361d50b81cf50381aa1ffcc50f0ae0937d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:41 +0000
Subject: [PATCH 19/32] fix: include the generated header of a file imported
 from a directory

The header is named after the basename of the proto file.
---
 pbtools/c_source/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pbtools/c_source/__init__.py b/pbtools/c_source/__init__.py
index 3881cef..8427256 100644
--- a/pbtools/c_source/__init__.py
+++ b/pbtools/c_source/__init__.py
@@ -1295,7 +1295,8 @@ class Generator:
         includes = []
 
         for imported in self.parsed.imports:
-            name = camel_to_snake_case(os.path.splitext(imported.path)[0])
+            basename = os.path.basename(imported.path)
+            name = camel_to_snake_case(os.path.splitext(basename)[0])
             includes.append(f'#include "{name}.h"')
 
         includes = '\n'.join(includes)
-- 
2.43.0


From 33cd8a669d6696649de7b49b35a8585d52c2c68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:40 +0000
Subject: [PATCH 20/32] fix: message and enum members named as scalar value
 types

A type like String in a file without package got the C type of string.
---
 pbtools/c_source/__init__.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/pbtools/c_source/__init__.py b/pbtools/c_source/__init__.py
index 8427256..6bf9280 100644
--- a/pbtools/c_source/__init__.py
+++ b/pbtools/c_source/__init__.py
@@ -708,7 +708,12 @@ class Generator:
         return self.parsed.package
 
     def generate_struct_member_fmt(self, type, name_snake_case, type_kind):
-        if type in ['int32', 'int64', 'uint32', 'uint64']:
+        if type_kind == 'enum':
+            type = f'enum {type}_e '
+        elif type_kind == 'message':
+            type = f'struct {type}_t *'
+            name_snake_case = f'{name_snake_case}_p'
+        elif type in ['int32', 'int64', 'uint32', 'uint64']:
             type = f'{type}_t '
         elif type in ['sint32', 'sint64']:
             type = f'{type[1:]}_t '
@@ -723,11 +728,6 @@ class Generator:
         elif type == 'string':
             type = f'char *'
             name_snake_case = f'{name_snake_case}_p'
-        elif type_kind == 'enum':
-            type = f'enum {type}_e '
-        elif type_kind == 'message':
-            type = f'struct {type}_t *'
-            name_snake_case = f'{name_snake_case}_p'
         else:
             type += ' '
 
@@ -736,7 +736,11 @@ class Generator:
     def generate_optional_struct_member_fmt(self, type, name_snake_case, type_kind):
         value_name_snake_case = 'value'
 
-        if type in ['int32', 'int64', 'uint32', 'uint64']:
+        if type_kind == 'enum':
+            type = f'enum {type}_e '
+        elif type_kind == 'message':
+            raise Exception('Only scalar value types may be optional.')
+        elif type in ['int32', 'int64', 'uint32', 'uint64']:
             type = f'{type}_t '
         elif type in ['sint32', 'sint64']:
             type = f'{type[1:]}_t '
@@ -751,8 +755,6 @@ class Generator:
         elif type == 'string':
             type = f'char *'
             value_name_snake_case = f'{value_name_snake_case}_p'
-        elif type_kind == 'enum':
-            type = f'enum {type}_e '
         else:
             raise Exception('Only scalar value types may be optional.')
 
@@ -765,7 +767,7 @@ class Generator:
                                             type,
                                             name_snake_case,
                                             type_kind):
-        if type in SCALAR_VALUE_TYPES:
+        if type_kind == 'scalar-value-type':
             if type in ['sint32', 'sint64']:
                 type = type[1:]
             elif type in ['fixed32', 'fixed64']:
-- 
2.43.0


From 4369f7b3b0b9b518a7609af80765009e086bb859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:31 +0000
Subject: [PATCH 21/32] fix: generate types before they are used as members

Messages that use each other, or types nested in each other, gave C code
that does not compile, as repeated structs and enums must be complete
when used as members.
---
 pbtools/c_source/__init__.py | 50 +++++++++++++++++++++++++++++++++---
 1 file changed, 47 insertions(+), 3 deletions(-)

diff --git a/pbtools/c_source/__init__.py b/pbtools/c_source/__init__.py
index 6bf9280..2f5b202 100644
--- a/pbtools/c_source/__init__.py
+++ b/pbtools/c_source/__init__.py
@@ -105,8 +105,7 @@ MESSAGE_STRUCT_FMT = '''\
 /**
  * Message {message.full_name}.
  */
-{repeated_struct}
-
+{repeated_struct}\
 struct {message.full_name_snake_case}_t {{
     struct pbtools_message_base_t base;
 {members}\
@@ -117,7 +116,8 @@ REPEATED_MESSAGE_STRUCT_FMT = '''\
 struct {message.full_name_snake_case}_repeated_t {{
     int length;
     struct {message.full_name_snake_case}_t *items_p;
-}};\
+}};
+
 '''
 
 ENUM_FMT = '''\
@@ -698,6 +698,8 @@ class Generator:
         self.parsed = parsed
         self.header_name = header_name
         self.enums_upper_case = options.enums_upper_case
+        self.enums_to_generate = {}
+        self.repeated_structs_to_generate = {}
 
     @property
     def messages(self):
@@ -818,6 +820,9 @@ class Generator:
         return members
 
     def generate_repeated_struct(self, message):
+        if self.repeated_structs_to_generate.pop(message.full_name, None) is None:
+            return ''
+
         return REPEATED_MESSAGE_STRUCT_FMT.format(message=message)
 
     def generate_enum_members(self, enum):
@@ -834,6 +839,9 @@ class Generator:
         return ',\n'.join(lines)
 
     def generate_enum_type(self, enum):
+        if self.enums_to_generate.pop(enum.full_name, None) is None:
+            return []
+
         return [
             ENUM_FMT.format(full_name=enum.full_name,
                             name=enum.full_name_snake_case,
@@ -870,6 +878,40 @@ class Generator:
 
         return ['\n'.join(types)]
 
+    def find_types_to_generate(self, enums, messages):
+        for enum in enums:
+            self.enums_to_generate[enum.full_name] = enum
+
+        for message in messages:
+            self.repeated_structs_to_generate[message.full_name] = message
+            self.find_types_to_generate(message.enums, message.messages)
+
+    def generate_member_types(self, message):
+        """Generate enums and repeated structs that are members of given
+        message, but that belongs to a message generated later.
+
+        """
+
+        types = []
+        fields = list(message.fields)
+
+        for oneof in message.oneofs:
+            fields += oneof.fields
+
+        for field in fields:
+            if field.type_kind == 'enum':
+                enum = self.enums_to_generate.get(field.full_type)
+
+                if enum is not None:
+                    types += self.generate_enum_type(enum)
+            elif field.full_type != message.full_name:
+                member = self.repeated_structs_to_generate.get(field.full_type)
+
+                if member is not None and field in message.repeated_fields:
+                    types.append(self.generate_repeated_struct(member))
+
+        return types
+
     def generate_message_types(self, message):
         types = []
 
@@ -882,6 +924,7 @@ class Generator:
         for oneof in message.oneofs:
             types += self.generate_oneof_type(oneof)
 
+        types += self.generate_member_types(message)
         types += [
             MESSAGE_STRUCT_FMT.format(
                 message=message,
@@ -893,6 +936,7 @@ class Generator:
 
     def generate_types(self):
         types = []
+        self.find_types_to_generate(self.parsed.enums, self.messages)
 
         for enum in self.parsed.enums:
             types += self.generate_enum_type(enum)
-- 
2.43.0


From f648993e29bb08955d30a1f58a8e488991eb528c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:39 +0000
Subject: [PATCH 22/32] fix: reject field numbers that are not allowed

Zero, negative and too big field numbers gave code that can't decode what
it encodes.
---
 pbtools/parser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 13ffef7..fdc08e5 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -35,6 +35,9 @@ SCALAR_VALUE_TYPES = [
 STRING_PATTERN = r'"(?:\\.|[^"\\\n])*"'
 
 
+MAX_FIELD_NUMBER = 536870911
+
+
 MAP_KEY_TYPES = [
     type
     for type in SCALAR_VALUE_TYPES
@@ -303,6 +306,9 @@ class Parser(textparser.Parser):
 class Field:
 
     def __init__(self, type, name, field_number):
+        if not 1 <= field_number <= MAX_FIELD_NUMBER:
+            raise Error(f"{field_number} is not a valid field number.")
+
         self.type = type[-1]
         self.name = name
         self.field_number = field_number
-- 
2.43.0


From 728f7c5f339dee88c54ef16f04bd91e6c4633fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:26 +0000
Subject: [PATCH 23/32] fix: an option with an integer value is not a field

---
 pbtools/parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index fdc08e5..2b549d8 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -246,8 +246,8 @@ class Parser(textparser.Parser):
         oneof = Sequence('oneof',
                          ident,
                          '{',
-                         ZeroOrMore(choice(Tag('field', oneof_field),
-                                           option,
+                         ZeroOrMore(choice(option,
+                                           Tag('field', oneof_field),
                                            empty_statement)),
                          '}')
 
@@ -262,12 +262,12 @@ class Parser(textparser.Parser):
         message <<= Sequence('message',
                              ident,
                              '{',
-                             ZeroOrMore(choice(Tag('field', field),
+                             ZeroOrMore(choice(option,
+                                               Tag('field', field),
                                                enum,
                                                message,
                                                oneof,
                                                map_field,
-                                               option,
                                                reserved,
                                                empty_statement)),
                              '}')
-- 
2.43.0


From 58c6ee8e2ab5b681a749b60f487d18183ecb7cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:20 +0000
Subject: [PATCH 24/32] fix: reject truncated files

---
 pbtools/parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 2b549d8..a9136b0 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -7,6 +7,7 @@ from textparser import ZeroOrMoreDict
 from textparser import choice
 from textparser import Optional
 from textparser import Forward
+from textparser import And
 from textparser import Tag
 from textparser import DelimitedList
 from textparser import ParseError
@@ -298,7 +299,8 @@ class Parser(textparser.Parser):
                                                package,
                                                option,
                                                top_level_def,
-                                               empty_statement)))
+                                               empty_statement)),
+                         And('__EOF__'))
 
         return proto
 
-- 
2.43.0


From ecbbaf6215634cb0cb6a53f3fe382c5f75675189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:31 +0000
Subject: [PATCH 25/32] fix: scalar value types have no namespace

---
 pbtools/parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index a9136b0..52b6574 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -719,7 +719,7 @@ class Proto:
         self.messages_stack.append(message)
 
         for field in message.fields:
-            if field.type in SCALAR_VALUE_TYPES:
+            if field.full_type in SCALAR_VALUE_TYPES:
                 continue
 
             self.resolve_field_type(field)
@@ -729,7 +729,7 @@ class Proto:
 
         for oneof in message.oneofs:
             for field in oneof.fields:
-                if field.type in SCALAR_VALUE_TYPES:
+                if field.full_type in SCALAR_VALUE_TYPES:
                     continue
 
                 self.resolve_field_type(field)
@@ -790,7 +790,7 @@ class Proto:
         self.messages_stack.pop()
 
     def resolve_field_type_kind(self, field):
-        if field.type in SCALAR_VALUE_TYPES:
+        if field.full_type in SCALAR_VALUE_TYPES:
             field.type_kind = 'scalar-value-type'
         elif self.is_field_enum(field):
             field.type_kind = 'enum'
-- 
2.43.0


From d65216b7360ce649d7ce2c11b9f7ccce2f8d05bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:38 +0000
Subject: [PATCH 26/32] fix: workspaces of more than INT_MAX bytes granted
 everything

---
 lib/src/pbtools.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index b127883..01a3499 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -61,6 +61,11 @@ static struct pbtools_heap_t *heap_new(void *buf_p,
     struct pbtools_heap_t *heap_p;
     size_t pad;
 
+    /* Positions in the heap are of type int. */
+    if (size > INT_MAX) {
+        size = INT_MAX;
+    }
+
     pad = (-(uintptr_t)buf_p & (alignof(struct pbtools_heap_t) - 1));
 
     if (size >= (sizeof(*heap_p) + pad)) {
-- 
2.43.0


From 833e6fb6a3451cbaed7a7053099c0414e0958e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:38 +0000
Subject: [PATCH 27/32] fix: encode to buffers of more than INT_MAX bytes

---
 lib/src/pbtools.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index 01a3499..4f1452e 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -121,6 +121,11 @@ static void encoder_init(struct pbtools_encoder_t *self_p,
                          uint8_t *buf_p,
                          size_t  size)
 {
+    /* Positions in the buffer are of type int. */
+    if (size > INT_MAX) {
+        size = INT_MAX;
+    }
+
     self_p->buf_p = buf_p;
     self_p->size = (int)size;
     self_p->pos = (int)size;
-- 
2.43.0


From e611d13366cc210355f142884a1ee67dcc27b612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:38 +0000
Subject: [PATCH 28/32] fix: encode of strings and bytes of more than INT_MAX
 bytes

---
 lib/src/pbtools.c | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index 4f1452e..af8df0a 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -158,11 +158,11 @@ static void encoder_abort(struct pbtools_encoder_t *self_p,
 
 static void encoder_write(struct pbtools_encoder_t *self_p,
                           uint8_t *buf_p,
-                          int size)
+                          size_t size)
 {
-    if (self_p->pos >= size) {
-        self_p->pos -= size;
-        memcpy(&self_p->buf_p[self_p->pos], buf_p, (size_t)size);
+    if ((self_p->pos >= 0) && (size <= (size_t)self_p->pos)) {
+        self_p->pos -= (int)size;
+        memcpy(&self_p->buf_p[self_p->pos], buf_p, size);
     } else {
         encoder_abort(self_p, PBTOOLS_ENCODE_BUFFER_FULL);
     }
@@ -182,7 +182,7 @@ static void encoder_write_varint(struct pbtools_encoder_t *self_p,
     } while (value > 0);
 
     buf[pos - 1] &= 0x7f;
-    encoder_write(self_p, &buf[0], pos);
+    encoder_write(self_p, &buf[0], (size_t)pos);
 }
 
 static void encoder_write_tag(struct pbtools_encoder_t *self_p,
@@ -440,7 +440,7 @@ void pbtools_encoder_write_string(struct pbtools_encoder_t *self_p,
     length = strlen(value_p);
 
     if (length > 0) {
-        encoder_write(self_p, (uint8_t *)value_p, (int)length);
+        encoder_write(self_p, (uint8_t *)value_p, length);
         encoder_write_tagged_varint(self_p,
                                     field_number,
                                     PBTOOLS_WIRE_TYPE_LENGTH_DELIMITED,
@@ -453,7 +453,7 @@ void pbtools_encoder_write_bytes(struct pbtools_encoder_t *self_p,
                                  struct pbtools_bytes_t *value_p)
 {
     if (value_p->size > 0) {
-        encoder_write(self_p, value_p->buf_p, (int)value_p->size);
+        encoder_write(self_p, value_p->buf_p, value_p->size);
         encoder_write_tagged_varint(self_p,
                                     field_number,
                                     PBTOOLS_WIRE_TYPE_LENGTH_DELIMITED,
@@ -591,7 +591,7 @@ void pbtools_encoder_write_string_always(struct pbtools_encoder_t *self_p,
     size_t length;
 
     length = strlen(value_p);
-    encoder_write(self_p, (uint8_t *)value_p, (int)length);
+    encoder_write(self_p, (uint8_t *)value_p, length);
     encoder_write_tagged_varint_always(self_p,
                                        field_number,
                                        PBTOOLS_WIRE_TYPE_LENGTH_DELIMITED,
@@ -602,7 +602,7 @@ void pbtools_encoder_write_bytes_always(struct pbtools_encoder_t *self_p,
                                         int field_number,
                                         struct pbtools_bytes_t *value_p)
 {
-    encoder_write(self_p, value_p->buf_p, (int)value_p->size);
+    encoder_write(self_p, value_p->buf_p, value_p->size);
     encoder_write_tagged_varint_always(self_p,
                                        field_number,
                                        PBTOOLS_WIRE_TYPE_LENGTH_DELIMITED,
@@ -885,7 +885,7 @@ void pbtools_encoder_write_repeated_string(
         length = strlen(repeated_p->items_pp[i]);
         encoder_write(self_p,
                       (uint8_t *)repeated_p->items_pp[i],
-                      (int)length);
+                      length);
         encoder_write_length_delimited(self_p, field_number, length);
     }
 }
@@ -900,7 +900,7 @@ void pbtools_encoder_write_repeated_bytes(
     for (i = repeated_p->length - 1; i >= 0; i--) {
         encoder_write(self_p,
                       repeated_p->items_p[i].buf_p,
-                      (int)repeated_p->items_p[i].size);
+                      repeated_p->items_p[i].size);
         encoder_write_length_delimited(self_p,
                                        field_number,
                                        repeated_p->items_p[i].size);
-- 
2.43.0


From f2f8e943b70d50de1f7795b381a236355377c737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:38 +0000
Subject: [PATCH 29/32] fix: decode of more than INT_MAX bytes

---
 lib/src/pbtools.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index af8df0a..35fbe2a 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -913,8 +913,16 @@ static void decoder_init(struct pbtools_decoder_t *self_p,
                          struct pbtools_heap_t *heap_p)
 {
     self_p->buf_p = buf_p;
-    self_p->size = (int)size;
-    self_p->pos = 0;
+
+    /* Positions in the buffer are of type int. */
+    if (size <= INT_MAX) {
+        self_p->size = (int)size;
+        self_p->pos = 0;
+    } else {
+        self_p->size = -PBTOOLS_LENGTH_DELIMITED_OVERFLOW;
+        self_p->pos = -PBTOOLS_LENGTH_DELIMITED_OVERFLOW;
+    }
+
     self_p->heap_p = heap_p;
 }
 
-- 
2.43.0


From d608681d0c0ca1ece78890c9913394f9baa6aae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:06 +0000
Subject: [PATCH 30/32] fix: empty bytes and messages were copied from and to
 null pointers

---
 lib/src/pbtools.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index 35fbe2a..3fabfbe 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -137,9 +137,12 @@ static int encoder_get_result(struct pbtools_encoder_t *self_p)
 
     if (self_p->pos >= 0) {
         length = (self_p->size - self_p->pos);
-        memmove(self_p->buf_p,
-                &self_p->buf_p[self_p->pos],
-                (size_t)length);
+
+        if (length > 0) {
+            memmove(self_p->buf_p,
+                    &self_p->buf_p[self_p->pos],
+                    (size_t)length);
+        }
     } else {
         length = self_p->pos;
     }
@@ -161,8 +164,10 @@ static void encoder_write(struct pbtools_encoder_t *self_p,
                           size_t size)
 {
     if ((self_p->pos >= 0) && (size <= (size_t)self_p->pos)) {
-        self_p->pos -= (int)size;
-        memcpy(&self_p->buf_p[self_p->pos], buf_p, size);
+        if (size > 0) {
+            self_p->pos -= (int)size;
+            memcpy(&self_p->buf_p[self_p->pos], buf_p, size);
+        }
     } else {
         encoder_abort(self_p, PBTOOLS_ENCODE_BUFFER_FULL);
     }
-- 
2.43.0


From d72f6152ecd549310dab6f0a1d46d25043e2965f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 31/32] fix: the path of a parsed file was looked for in the
 import path

---
 pbtools/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 52b6574..fad970a 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -913,5 +913,5 @@ def parse_file(filename, import_paths=None):
 
     with open(filename, 'r', encoding='utf-8') as fin:
         return Proto(Parser().parse(ignore_comments(fin.read())),
-                     find_file(filename, import_paths),
+                     os.path.abspath(filename),
                      import_paths)
-- 
2.43.0


From f43e815342bed6d3cc5648e2c55d36c1414c50bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:58 +0000
Subject: [PATCH 32/32] fix: Types in a message or package may be named string
 and bytes.

A field of the type M.string was generated as a string.
---
 pbtools/c_source/__init__.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pbtools/c_source/__init__.py b/pbtools/c_source/__init__.py
index 2f5b202..ae228a1 100644
--- a/pbtools/c_source/__init__.py
+++ b/pbtools/c_source/__init__.py
@@ -1060,12 +1060,12 @@ class Generator:
                     fmt = DECODE_REPEATED_ENUM_FMT
                 else:
                     fmt = DECODE_REPEATED_FIELD_FMT
-            elif field.type == 'bytes':
+            elif field.full_type == 'bytes':
                 if field.optional:
                     fmt = DECODE_OPTIONAL_MEMBER_BYTES_FMT
                 else:
                     fmt = DECODE_MEMBER_BYTES_FMT
-            elif field.type == 'string':
+            elif field.full_type == 'string':
                 if field.optional:
                     fmt = DECODE_OPTIONAL_MEMBER_STRING_FMT
                 else:
@@ -1104,9 +1104,9 @@ class Generator:
                 member = f'    self_p->{name}.length = 0;'
             elif field.optional:
                 member = f'    self_p->{name}.is_present = false;'
-            elif field.type == 'bytes':
+            elif field.full_type == 'bytes':
                 member = f'    pbtools_bytes_init(&self_p->{name});'
-            elif field.type == 'string':
+            elif field.full_type == 'string':
                 member = f'    self_p->{name}_p = "";'
             elif field.type_kind == 'scalar-value-type':
                 member = f'    self_p->{name} = 0;'
@@ -1216,10 +1216,10 @@ class Generator:
                                                  oneof=oneof,
                                                  field=field))
             else:
-                if field.type == 'bytes':
+                if field.full_type == 'bytes':
                     init = (f'    pbtools_bytes_init('
                             f'&self_p->{name});')
-                elif field.type == 'string':
+                elif field.full_type == 'string':
                     init = f'    self_p->{name}_p = "";'
                 elif field.type_kind == 'scalar-value-type':
                     init = f'    self_p->{name} = 0;'
@@ -1270,9 +1270,9 @@ class Generator:
                                                               oneof=oneof,
                                                               field=field))
             else:
-                if field.type == 'bytes':
+                if field.full_type == 'bytes':
                     fmt = DECODE_ONEOF_MEMBER_BYTES_FMT
-                elif field.type == 'string':
+                elif field.full_type == 'string':
                     fmt = DECODE_ONEOF_MEMBER_STRING_FMT
                 elif field.type_kind == 'scalar-value-type':
                     fmt = DECODE_ONEOF_MEMBER_FMT
-- 
2.43.0

