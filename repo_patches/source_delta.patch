From 8335998ff64c6ad5b3fd219313d37853f2ab8bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:03 +0000
Subject: [PATCH 01/62] fix: count the bytes a read delivered, not the bytes
 asked for, in body loops

---
 ombott/request_pkg/body_mixin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index 3f8b890..3467b1f 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -26,7 +26,7 @@ def _iter_body(read, buff_size, *, content_length):
         if not part:
             break
         yield part
-        rest_len -= part_size
+        rest_len -= len(part)
 
 
 def _iter_chunked(read, buff_size):
@@ -73,7 +73,7 @@ def _iter_chunked(read, buff_size):
             if not part:
                 raise parsing_err
             yield part
-            rest_len -= part_size
+            rest_len -= len(part)
         if read(2) != rn:
             raise parsing_err
 
-- 
2.43.0


From c4c79f9ee37ea7451dfb6b56c259aad9a7e82b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:52 +0000
Subject: [PATCH 02/62] fix: a request body that failed to be read is not read
 again from the middle

---
 ombott/request_pkg/body_mixin.py | 11 +++++++++++
 ombott/request_pkg/request.py    |  2 +-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index 3467b1f..a9e12d8 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -240,6 +240,17 @@ class BodyMixin:
 
     @cache_in('environ[ ombott.request.body ]', read_only=True)
     def _body(self):
+        # the stream can be consumed only once, so a failure is final
+        err = self.environ.get('ombott.request.body_error')
+        if err is not None:
+            raise err
+        try:
+            return self._read_body()
+        except Exception as err:
+            self.environ['ombott.request.body_error'] = err
+            raise
+
+    def _read_body(self):
         markup = None
         mp = MULTIPART_BOUNDARY_PATT.match(self.environ.get('CONTENT_TYPE', ''))
         if mp is not None:
diff --git a/ombott/request_pkg/request.py b/ombott/request_pkg/request.py
index a3afd28..68eecad 100644
--- a/ombott/request_pkg/request.py
+++ b/ombott/request_pkg/request.py
@@ -49,7 +49,7 @@ class BaseRequest:
     def _on_env_changed(request, key, v):
         todelete = ()
         if key == 'wsgi.input':
-            todelete = ('forms', 'files', 'params', 'post', 'json', 'body')
+            todelete = ('forms', 'files', 'params', 'post', 'json', 'body', 'body_error')
         elif key == 'QUERY_STRING':
             todelete = ('query', 'params')
         elif key.startswith('HTTP_'):
-- 
2.43.0


From 1094412dbba30c536bbcb3ce6453c17caafaeaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:41 +0000
Subject: [PATCH 03/62] fix: the CRLF behind a chunk may arrive in two reads

---
 ombott/request_pkg/body_mixin.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index a9e12d8..4dfbcaf 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -30,7 +30,7 @@ def _iter_body(read, buff_size, *, content_length):
 
 
 def _iter_chunked(read, buff_size):
-    r, n, rn, sem = b'\r', b'\n', b'\r\n', b';'
+    r, n, sem = b'\r', b'\n', b';'
     header_size_buff = []
     parsing_err = BodyParsingError()
     while True:
@@ -74,8 +74,9 @@ def _iter_chunked(read, buff_size):
                 raise parsing_err
             yield part
             rest_len -= len(part)
-        if read(2) != rn:
-            raise parsing_err
+        for c in (r, n):  # byte by byte: a read may be short
+            if read(1) != c:
+                raise parsing_err
 
 
 def _body_read(
-- 
2.43.0


From 49f38691bfcf7e75dfc9f28b96f49bbbb8d362b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:41 +0000
Subject: [PATCH 04/62] fix: accept legal chunk headers when the read buffer is
 smaller than them

---
 ombott/request_pkg/body_mixin.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index 4dfbcaf..8f2cc80 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -17,6 +17,9 @@ from .errors import RequestError, BodyParsingError, BodySizeError
 
 MULTIPART_BOUNDARY_PATT = re.compile(r'^multipart/.+?boundary=(.+?)(;|$)')
 
+# a chunk header (size and extensions) up to this length is accepted with any buffer size
+MIN_CHUNK_HEADER_LIMIT = 4096
+
 
 def _iter_body(read, buff_size, *, content_length):
     rest_len = content_length
@@ -33,6 +36,7 @@ def _iter_chunked(read, buff_size):
     r, n, sem = b'\r', b'\n', b';'
     header_size_buff = []
     parsing_err = BodyParsingError()
+    max_header_size = max(buff_size, MIN_CHUNK_HEADER_LIMIT)
     while True:
 
         # read header to get chunk size
@@ -43,7 +47,7 @@ def _iter_chunked(read, buff_size):
         while True:   # header[-2:] != rn:
             c = read(1)
             read_len += 1
-            if not c or read_len > buff_size:
+            if not c or read_len > max_header_size:
                 raise parsing_err
             # catch `\r\n`
             if seen_r and c == n:
-- 
2.43.0


From dbb85d887d8109976e681aba5d882098cce3fb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:52 +0000
Subject: [PATCH 05/62] fix: form and JSON text of a chunked request is not cut
 at a stray Content-Length

---
 ombott/request_pkg/body_mixin.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index 8f2cc80..b7057f6 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -284,7 +284,8 @@ class BodyMixin:
         self._body.seek(0)
         read = self._body.read
         max_content_length = self.config.max_memfile_size
-        content_length = self.content_length
+        # Content-Length means nothing if the body is chunked
+        content_length = -1 if self.chunked else self.content_length
 
         if content_length > max_content_length:
             raise self._raise(BodySizeError(), RequestError)
-- 
2.43.0


From 1265d175e7d3d87d02d8989e1a409dfbd1d7f9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:44 +0000
Subject: [PATCH 06/62] fix: a body that is no JSON is a client error

---
 ombott/request_pkg/body_mixin.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index b7057f6..ea3aa4c 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -163,7 +163,10 @@ class BodyMixin:
             b = self._get_body_string()
             if not b:
                 return None
-            return json_mod.loads(b)
+            try:
+                return json_mod.loads(b)
+            except (ValueError, RecursionError) as err:
+                self._raise(RequestError(f'Invalid JSON: {err}'), RequestError)
         return None
 
     @cache_in('environ[ ombott.request.post ]', read_only=True)
-- 
2.43.0


From a905bf3d9ad92d7ed045f5e42fb4472eddeb45ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:44 +0000
Subject: [PATCH 07/62] fix: reading the form of a JSON body that is no object
 is a client error

---
 ombott/request_pkg/body_mixin.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index ea3aa4c..954eeb9 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -185,7 +185,12 @@ class BodyMixin:
         ctype = self.content_type
         if not ctype.startswith('multipart/'):
             if ctype.startswith('application/json'):
-                post.update(self.json)
+                data = self.json
+                if data is not None:
+                    try:
+                        post.update(data)
+                    except (TypeError, ValueError) as err:
+                        self._raise(RequestError(f'JSON is not a form: {err}'), RequestError)
             else:
                 parse_qsl(
                     touni(self._get_body_string(), 'latin1'),
-- 
2.43.0


From 3f3bfdbbe56ca9fdc2402502e4b7c8c292013042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:01 +0000
Subject: [PATCH 08/62] fix: forms and files of a body that failed to parse are
 not presented half filled

---
 ombott/request_pkg/body_mixin.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index 954eeb9..f1fb314 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -177,7 +177,8 @@ class BodyMixin:
 
         """
         env = self.environ
-        files = env['ombott.request.files'] = self._forms_factory()
+        # made visible only when complete
+        files = self._forms_factory()
         post = self._forms_factory()
 
         # We default to application/x-www-form-urlencoded for everything that
@@ -196,10 +197,11 @@ class BodyMixin:
                     touni(self._get_body_string(), 'latin1'),
                     setitem=post.__setitem__
                 )
+            env['ombott.request.files'] = files
             env['ombott.request.forms'] = post
             return post
 
-        forms = env['ombott.request.forms'] = self._forms_factory()
+        forms = self._forms_factory()
 
         body = self.body
         markup: MultipartMarkup = body.ombott_markup
@@ -230,6 +232,8 @@ class BodyMixin:
                 el.append(it)
             else:
                 post[key] = dct[key] = it
+        env['ombott.request.files'] = files
+        env['ombott.request.forms'] = forms
         return post
 
     @cache_in('environ[ ombott.request.forms ]', read_only=True)
-- 
2.43.0


From b4dd2df0eeea303be3125fab458e0d2b39dee54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:41 +0000
Subject: [PATCH 09/62] fix: multipart errors are answered as the configured
 client errors

---
 ombott/request_pkg/body_mixin.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index f1fb314..e325f0f 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -206,13 +206,16 @@ class BodyMixin:
         body = self.body
         markup: MultipartMarkup = body.ombott_markup
         if markup is None:
-            # should never happen since we check content-type
-            # when reading body
-            raise BodyParsingError()
+            # no boundary in content-type
+            self._raise(BodyParsingError(), RequestError)
         elif markup.error is not None:
-            raise markup.error
+            self._raise(markup.error, RequestError)
+        try:
+            items = list(FieldStorage.iter_items(body, markup.markups, self.config.max_memfile_size))
+        except RequestError as err:
+            self._raise(err, RequestError)
         listified = set()
-        for item in FieldStorage.iter_items(body, markup.markups, self.config.max_memfile_size):
+        for item in items:
             if item.filename:
                 it = FileUpload(
                     item.file, item.name,
@@ -270,9 +273,9 @@ class BodyMixin:
     def _read_body(self):
         markup = None
         mp = MULTIPART_BOUNDARY_PATT.match(self.environ.get('CONTENT_TYPE', ''))
-        if mp is not None:
-            markup = MultipartMarkup(mp.group(1))
         try:
+            if mp is not None:
+                markup = MultipartMarkup(mp.group(1))
             body = _body_read(
                 self.environ['wsgi.input'].read,
                 self.config.max_memfile_size,
-- 
2.43.0


From a4e918028add57ff9487d612ef30449e15cc98f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:23 +0000
Subject: [PATCH 10/62] fix: malformed part headers and text are multipart
 parsing errors

---
 ombott/request_pkg/multipart.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/ombott/request_pkg/multipart.py b/ombott/request_pkg/multipart.py
index 29b6f4e..dc87550 100644
--- a/ombott/request_pkg/multipart.py
+++ b/ombott/request_pkg/multipart.py
@@ -431,18 +431,20 @@ class FieldStorage:
         if has_read > max_read:
             raise BodySizeError('Max in-memory read limit exceed')
         src.seek(start)
-        headers_raw = src.read(sz).decode()
+        headers_raw = self.decode(src.read(sz))
         for header_raw in headers_raw.splitlines():
+            if not header_raw:
+                continue
             header = self.parse_header(header_raw)
             self.headers[header.name] = header
             if header.name == 'Content-Disposition':
-                self.name = header.options['name']
+                self.name = header.options.get('name')
                 self.filename = header.options.get('filename')
             elif header.name == 'Content-Type':
                 self.ctype = header.value
 
         if self.name is None:
-            raise BodyParsingError(f'Noname field found while parsing multipart/formdata body: {header_raw}')
+            raise BodyParsingError(f'Noname field found while parsing multipart/formdata body: {headers_raw}')
 
         if self.filename is not None:
             self.file = BytesIOProxy(src, *data_section)
@@ -454,14 +456,23 @@ class FieldStorage:
                 if has_read > max_read:
                     raise BodySizeError('Max in-memory read limit exceed')
                 src.seek(start)
-                self.value = src.read(sz).decode()
+                self.value = self.decode(src.read(sz))
             else:
                 self.value = ''
         return has_read
 
+    @staticmethod
+    def decode(raw: bytes) -> str:
+        try:
+            return raw.decode()
+        except UnicodeDecodeError as err:
+            raise BodyParsingError(f'Malformed multipart/formdata, utf8 text expected: {err}')
+
     @classmethod
     def parse_header(cls, s: str):
-        htype, rest = s.split(':', 1)
+        htype, colon, rest = s.partition(':')
+        if not colon or not rest:
+            raise MalformedHeadersError(f'Malformed headers, colon and value expected in: {s}')
         opt_iter = cls._patt.finditer(rest)
         hvalue = next(opt_iter).group(1).strip()
         dct = {}
-- 
2.43.0


From ebfb6a009ef764bafc6f57041fe20587aa4f495d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:23 +0000
Subject: [PATCH 11/62] fix: quoted parameters of part headers may contain
 semicolons and equals signs

---
 ombott/request_pkg/multipart.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/ombott/request_pkg/multipart.py b/ombott/request_pkg/multipart.py
index dc87550..b60774f 100644
--- a/ombott/request_pkg/multipart.py
+++ b/ombott/request_pkg/multipart.py
@@ -404,7 +404,8 @@ class Header(SimpleNamespace):
 
 class FieldStorage:
 
-    _patt = re.compile('(.+?)(=(.+?))?(;|$)')
+    # text up to the next `;` that is outside of quotes
+    _patt = re.compile('((?:[^;"]|"[^"]*"?)+)')
 
     name: str
     value: Optional[str]
@@ -471,18 +472,16 @@ class FieldStorage:
     @classmethod
     def parse_header(cls, s: str):
         htype, colon, rest = s.partition(':')
-        if not colon or not rest:
-            raise MalformedHeadersError(f'Malformed headers, colon and value expected in: {s}')
-        opt_iter = cls._patt.finditer(rest)
-        hvalue = next(opt_iter).group(1).strip()
+        if not colon:
+            raise MalformedHeadersError(f'Malformed headers, colon expected in: {s}')
+        hvalue, *options = cls._patt.findall(rest) or ['']
         dct = {}
-        for it in opt_iter:
-            k = it.group(1).strip()
-            v = it.group(3)
-            if v is not None:
-                v = v.strip('"')
-            dct[k.lower()] = v
-        return Header(name=htype, value=hvalue, options=dct)
+        for it in options:
+            k, eq, v = it.partition('=')
+            k = k.strip()
+            if k:
+                dct[k.lower()] = v.strip().strip('"') if eq else None
+        return Header(name=htype.strip().title(), value=hvalue.strip(), options=dct)
 
     @classmethod
     def iter_items(cls, src: BytesIO, markup: list, max_read: int):
-- 
2.43.0


From bb359437854e1318c091d07e8ddd7280851674b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:23 +0000
Subject: [PATCH 12/62] fix: part headers end at CRLF only, names may contain
 other line separators

---
 ombott/request_pkg/multipart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ombott/request_pkg/multipart.py b/ombott/request_pkg/multipart.py
index b60774f..d49c84f 100644
--- a/ombott/request_pkg/multipart.py
+++ b/ombott/request_pkg/multipart.py
@@ -433,7 +433,7 @@ class FieldStorage:
             raise BodySizeError('Max in-memory read limit exceed')
         src.seek(start)
         headers_raw = self.decode(src.read(sz))
-        for header_raw in headers_raw.splitlines():
+        for header_raw in headers_raw.split('\r\n'):
             if not header_raw:
                 continue
             header = self.parse_header(header_raw)
-- 
2.43.0


From 82afefb0dd1b91832b7b7a8c850080c6d5100bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:14 +0000
Subject: [PATCH 13/62] fix: multipart epilogue that arrives in a separate read
 is ignored like one in the same read

---
 ombott/request_pkg/multipart.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ombott/request_pkg/multipart.py b/ombott/request_pkg/multipart.py
index d49c84f..7be97e2 100644
--- a/ombott/request_pkg/multipart.py
+++ b/ombott/request_pkg/multipart.py
@@ -185,8 +185,8 @@ class BodyMarkuper:
         self.stopped = False
 
     def iter_markup(self, chunk: bytes) -> Iterable[Tuple[str, Tuple[int, int]]]:
-        if self.stopped:
-            raise StopMarkupException()
+        if self.stopped:  # epilogue
+            return
         cur_meth = self.cur_meth
         abs_start_section = self.abs_start_section
         start_next_sec = 0
-- 
2.43.0


From 1a69dab481aecca2f306124d51f9a63395b80685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:37 +0000
Subject: [PATCH 14/62] fix: only the very first body byte is checked for a
 multipart boundary start

---
 ombott/request_pkg/multipart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ombott/request_pkg/multipart.py b/ombott/request_pkg/multipart.py
index 7be97e2..41482e6 100644
--- a/ombott/request_pkg/multipart.py
+++ b/ombott/request_pkg/multipart.py
@@ -235,7 +235,7 @@ class BodyMarkuper:
         self.abs_start_section = abs_start_section
 
     def _eat_start_boundary(self, chunk: bytes, base: int):
-        if self.trest is None:
+        if self.trest is None and self.abspos == 0:
             chunk_start = chunk[base: base + 1]
             if not chunk_start:
                 return
-- 
2.43.0


From ff4dbcdd2902c3c4f9fde0041011dd0a22813bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:37 +0000
Subject: [PATCH 15/62] fix: multipart boundary may be quoted, names in
 Content-Type are case-insensitive

---
 ombott/request_pkg/body_mixin.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index e325f0f..34a4941 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -15,7 +15,9 @@ from .helpers import (
 from .errors import RequestError, BodyParsingError, BodySizeError
 
 
-MULTIPART_BOUNDARY_PATT = re.compile(r'^multipart/.+?boundary=(.+?)(;|$)')
+MULTIPART_BOUNDARY_PATT = re.compile(
+    r'^multipart/.+?boundary=(?:"(?P<quoted>[^"]+)"|(?P<plain>.+?))\s*(;|$)', re.I
+)
 
 # a chunk header (size and extensions) up to this length is accepted with any buffer size
 MIN_CHUNK_HEADER_LIMIT = 4096
@@ -275,7 +277,7 @@ class BodyMixin:
         mp = MULTIPART_BOUNDARY_PATT.match(self.environ.get('CONTENT_TYPE', ''))
         try:
             if mp is not None:
-                markup = MultipartMarkup(mp.group(1))
+                markup = MultipartMarkup(mp['quoted'] or mp['plain'])
             body = _body_read(
                 self.environ['wsgi.input'].read,
                 self.config.max_memfile_size,
-- 
2.43.0


From f2221722524ffa05e444a521d2b5163bc6808aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:16 +0000
Subject: [PATCH 16/62] fix: closing hyphens of a multipart body may arrive in
 two reads

---
 ombott/request_pkg/multipart.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ombott/request_pkg/multipart.py b/ombott/request_pkg/multipart.py
index 41482e6..7f01b82 100644
--- a/ombott/request_pkg/multipart.py
+++ b/ombott/request_pkg/multipart.py
@@ -90,13 +90,13 @@ class HeadersEaeter:
         return pos
 
     def _eat_last_hyphen(self, chunk: bytes, base: int) -> Optional[int]:
-        chunk_start = chunk[base: base + 2]
+        chunk_start = chunk[base: base + 1]
         if not chunk_start:
             return
         if chunk_start == HYPHEN:
             self.stopped = True
             return base + 1
-        raise UnexpectedBodyEndError(f'Last hyphen was expected, got (first 2 symbols slice): {chunk_start}')
+        raise UnexpectedBodyEndError(f'Last hyphen was expected, got: {chunk_start}')
 
     def _eat_lf(self, chunk: bytes, base: int) -> Optional[int]:
         chunk_start = chunk[base: base + 1]
-- 
2.43.0


From ceb2a98ab106e899000365dfc7e714a81c4fba98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:50 +0000
Subject: [PATCH 17/62] fix: garbage behind a multipart delimiter is an error
 wherever the reads are split

---
 ombott/request_pkg/multipart.py | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/ombott/request_pkg/multipart.py b/ombott/request_pkg/multipart.py
index 7f01b82..0d78293 100644
--- a/ombott/request_pkg/multipart.py
+++ b/ombott/request_pkg/multipart.py
@@ -115,20 +115,20 @@ class HeadersEaeter:
         if chunk_start == CRLF:
             return base + 2
 
-        if len(chunk_start) == 1:
-            self.eat_meth = self._meth_map.get(chunk_start)
-        elif chunk_start == HYPHENx2:
+        if chunk_start == HYPHENx2:
             self.stopped = True
             return base + 2
 
-        if self.eat_meth is None:
+        eat_meth = self._meth_map.get(chunk_start)  # is it the first half?
+        if eat_meth is None:
             raise MalformedHeadersError(f'Malformed headers, invalid section start: {chunk_start}')
+        self.eat_meth = eat_meth
 
     def _eat_headers(self, chunk: bytes, base: int):
         expected: bytes = self.headers_end_expected
         if expected is not None:
             expected_len = len(expected)
-            chunk_start = chunk[base:expected_len]
+            chunk_start = chunk[base:base + expected_len]
             if chunk_start == expected:
                 self.headers_end_expected = None
                 return base + expected_len - CRLFx2_LEN
@@ -139,16 +139,9 @@ class HeadersEaeter:
                 if expected.startswith(chunk_start):
                     self.headers_end_expected = expected[chunk_start_len:]
                     return
-                self.headers_end_expected = None
 
-            if expected == LF:  # we saw CRLFCR
-                invalid_sequence = CR + chunk_start[0:1]
-                # NOTE we don not catch all CRLF-malformed errors, but only obvious ones
-                # to stop doing useless work
-                raise MalformedHeadersError(f'Malformed headers, found invalid sequence: {invalid_sequence}')
-            else:
-                assert expected_len >= 2  # (CR)LFCRLF or (CRLF)CRLF
-                self.headers_end_expected = None
+            # not the end, same as if it was seen in one piece
+            self.headers_end_expected = None
 
         assert self.headers_end_expected is None
 
-- 
2.43.0


From 5478f9dacf385f2796abbb4e07f0ae2281b77739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:00 +0000
Subject: [PATCH 18/62] fix: a JSON list of pairs is not presented as a form

---
 ombott/request_pkg/body_mixin.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index 34a4941..c28c3b2 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -190,10 +190,9 @@ class BodyMixin:
             if ctype.startswith('application/json'):
                 data = self.json
                 if data is not None:
-                    try:
-                        post.update(data)
-                    except (TypeError, ValueError) as err:
-                        self._raise(RequestError(f'JSON is not a form: {err}'), RequestError)
+                    if not isinstance(data, dict):
+                        self._raise(RequestError('JSON is not a form, object expected'), RequestError)
+                    post.update(data)
             else:
                 parse_qsl(
                     touni(self._get_body_string(), 'latin1'),
-- 
2.43.0


From 2b5cf35f3d228d9e05be86f9dedd126377d426f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:00 +0000
Subject: [PATCH 19/62] fix: text and file fields of the same name do not mix
 in forms and files

---
 ombott/request_pkg/body_mixin.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index c28c3b2..a16535b 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -215,7 +215,6 @@ class BodyMixin:
             items = list(FieldStorage.iter_items(body, markup.markups, self.config.max_memfile_size))
         except RequestError as err:
             self._raise(err, RequestError)
-        listified = set()
         for item in items:
             if item.filename:
                 it = FileUpload(
@@ -227,15 +226,13 @@ class BodyMixin:
                 it = item.value
                 dct = forms
             key = item.name
-
-            if key in post:
-                el = post[key]
-                if key not in listified:
-                    el = post[key] = dct[key] = [el]
-                    listified.add(key)
-                el.append(it)
-            else:
-                post[key] = dct[key] = it
+            for collection in (dct, post):
+                if key not in collection:
+                    collection[key] = it
+                elif isinstance(collection[key], list):
+                    collection[key].append(it)
+                else:
+                    collection[key] = [collection[key], it]
         env['ombott.request.files'] = files
         env['ombott.request.forms'] = forms
         return post
-- 
2.43.0


From f89a6d6d2ae67d38a5e1cca446b29495d4046c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:01 +0000
Subject: [PATCH 20/62] fix: an upload with an empty filename is not presented
 as a field without value

---
 ombott/request_pkg/body_mixin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index a16535b..316de40 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -216,7 +216,7 @@ class BodyMixin:
         except RequestError as err:
             self._raise(err, RequestError)
         for item in items:
-            if item.filename:
+            if item.file is not None:
                 it = FileUpload(
                     item.file, item.name,
                     item.filename, item.headers
-- 
2.43.0


From f521856fbd40a2e5fff41aa3075557a26987cc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:01 +0000
Subject: [PATCH 21/62] fix: headers of an upload are strings

---
 ombott/request_pkg/body_mixin.py | 2 +-
 ombott/request_pkg/multipart.py  | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index 316de40..8ba8158 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -219,7 +219,7 @@ class BodyMixin:
             if item.file is not None:
                 it = FileUpload(
                     item.file, item.name,
-                    item.filename, item.headers
+                    item.filename, {h.name: h.raw for h in item.headers.values()}
                 )
                 dct = files
             else:
diff --git a/ombott/request_pkg/multipart.py b/ombott/request_pkg/multipart.py
index 0d78293..b11f87f 100644
--- a/ombott/request_pkg/multipart.py
+++ b/ombott/request_pkg/multipart.py
@@ -393,6 +393,7 @@ class Header(SimpleNamespace):
     name: str
     value: str
     options: Dict[str, str]
+    raw: str
 
 
 class FieldStorage:
@@ -474,7 +475,7 @@ class FieldStorage:
             k = k.strip()
             if k:
                 dct[k.lower()] = v.strip().strip('"') if eq else None
-        return Header(name=htype.strip().title(), value=hvalue.strip(), options=dct)
+        return Header(name=htype.strip().title(), value=hvalue.strip(), options=dct, raw=rest.strip())
 
     @classmethod
     def iter_items(cls, src: BytesIO, markup: list, max_read: int):
-- 
2.43.0


From 219da03457ac300aeb749b9d3756808f4edffbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:01 +0000
Subject: [PATCH 22/62] fix: read(0) of an upload reads nothing

---
 ombott/request_pkg/multipart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ombott/request_pkg/multipart.py b/ombott/request_pkg/multipart.py
index b11f87f..668bced 100644
--- a/ombott/request_pkg/multipart.py
+++ b/ombott/request_pkg/multipart.py
@@ -364,7 +364,7 @@ class BytesIOProxy:
         max_sz = self._end - self._pos
         if max_sz <= 0:
             return b''
-        if sz is not None and sz > 0:
+        if sz is not None and sz >= 0:
             sz = min(sz, max_sz)
         else:
             sz = max_sz
-- 
2.43.0


From 847f07c06e5735718a8a32c522a85cc88cf8d66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:49 +0000
Subject: [PATCH 23/62] fix: a line feed at the end of a read is no part of the
 headers end

---
 ombott/request_pkg/multipart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ombott/request_pkg/multipart.py b/ombott/request_pkg/multipart.py
index 668bced..0c6fdfb 100644
--- a/ombott/request_pkg/multipart.py
+++ b/ombott/request_pkg/multipart.py
@@ -60,7 +60,7 @@ CRLFx2 = CRLF * 2
 CRLFx2_LEN = len(CRLFx2)
 
 
-end_headers_patt = re.compile(br'(\r\n\r\n)|(\r(\n\r?)?)$')
+end_headers_patt = re.compile(br'(\r\n\r\n)|(\r(\n\r?)?)\Z')
 
 
 class HeadersEaeter:
-- 
2.43.0


From 0db9c8f82f3a8a7d6ccba7b1691be24650b02b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:47 +0000
Subject: [PATCH 24/62] fix: the error for garbage behind a multipart delimiter
 does not depend on the split

---
 ombott/request_pkg/multipart.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ombott/request_pkg/multipart.py b/ombott/request_pkg/multipart.py
index 0c6fdfb..dc3844d 100644
--- a/ombott/request_pkg/multipart.py
+++ b/ombott/request_pkg/multipart.py
@@ -119,10 +119,11 @@ class HeadersEaeter:
             self.stopped = True
             return base + 2
 
-        eat_meth = self._meth_map.get(chunk_start)  # is it the first half?
+        eat_meth = self._meth_map.get(chunk_start[:1])
         if eat_meth is None:
             raise MalformedHeadersError(f'Malformed headers, invalid section start: {chunk_start}')
-        self.eat_meth = eat_meth
+        self.eat_meth = eat_meth  # it is the first half, the second one may be in the next chunk
+        return eat_meth(chunk, base + 1)
 
     def _eat_headers(self, chunk: bytes, base: int):
         expected: bytes = self.headers_end_expected
-- 
2.43.0


From 6d909a90728868ed128fc2277d1e2c4c8e7aa7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:49 +0000
Subject: [PATCH 25/62] fix: keep thread-local properties per instance, not per
 class

---
 ombott/common_helpers.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ombott/common_helpers.py b/ombott/common_helpers.py
index 1c4c400..c39948a 100644
--- a/ombott/common_helpers.py
+++ b/ombott/common_helpers.py
@@ -72,11 +72,9 @@ def html_escape(string):
 # ------------------[ thread safe props] -------------------
 def ts_props(*props, store_name=None):
     def wrapper(cls):
-        local_store = None
         cls_init = cls.__init__
 
         def init_wrapper(self, *a, **kw):
-            nonlocal local_store
             local_store = getattr(self, store_name, None)
             if local_store is None:
                 local_store = threading.local()
@@ -86,13 +84,13 @@ def ts_props(*props, store_name=None):
 
         def make_prop(k):
             def fget(s):
-                return getattr(local_store, k)
+                return getattr(getattr(s, store_name), k)
 
             def fset(s, v):
-                return setattr(local_store, k, v)
+                return setattr(getattr(s, store_name), k, v)
 
             def fdel(s):
-                return delattr(local_store, k)
+                return delattr(getattr(s, store_name), k)
             doc = 'Local property: %s' % k
             return property(fget, fset, fdel, doc)
 
-- 
2.43.0


From db70f863491bd87af03a370d20689ab128db49ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:14 +0000
Subject: [PATCH 26/62] fix: init request and response before an undecodable
 path is answered

---
 ombott/ombott.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index bb71528..07db97d 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -259,16 +259,18 @@ class Ombott:
         response = self.response
         request = self.request
 
+        # init thread
+        environ['ombott.app'] = self
+        request.__init__(environ)
+        response.__init__()
+
         path = environ['ombott.raw_path'] = environ['PATH_INFO']
         try:
             path = path.encode('latin1').decode('utf8')
         except UnicodeError:
             return HTTPError(400, 'Invalid path string. Expected UTF-8')
         environ['PATH_INFO'] = path
-        try:  # init thread
-            environ['ombott.app'] = self
-            request.__init__(environ)
-            response.__init__()
+        try:
             try:  # routing
                 self.emit('before_request')
                 route, kwargs, route_hooks = (None, None, None)
-- 
2.43.0


From 665c54e085241c8367f695b0db6141eda3788005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:14 +0000
Subject: [PATCH 27/62] fix: a response applied twice doesn't share cookies and
 header lists

---
 ombott/response.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ombott/response.py b/ombott/response.py
index 1edafac..bf8cebe 100644
--- a/ombott/response.py
+++ b/ombott/response.py
@@ -1,3 +1,4 @@
+from copy import deepcopy
 from datetime import date as datedate, datetime, timedelta
 import email.utils
 import http.client as httplib
@@ -275,11 +276,15 @@ class HTTPResponse(BaseResponse, OmbottException):
         response._status_code = self._status_code
         response._status_line = self._status_line
         response._headers.clear()
-        response._headers.update(self._headers)
+        # `self` may be applied many times, so it must not be affected by later changes of `response`
+        response._headers.update(self._copy_headers())
         if self._cookies:
-            response._cookies = self._cookies
+            response._cookies = deepcopy(self._cookies)
         response.body = self.body
 
+    def _copy_headers(self):
+        return {k: (v[:] if isinstance(v, list) else v) for k, v in self._headers.items()}
+
 
 class HTTPError(HTTPResponse):
     __slots__ = ('exception', 'traceback')
-- 
2.43.0


From 1014bb0dfb2d47853101972a06c5afdb1cd6fdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:28 +0000
Subject: [PATCH 28/62] fix: raise copies of the shared error responses

---
 ombott/request_pkg/request.py |  5 ++++-
 ombott/response.py            | 19 +++++++++++++++++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/ombott/request_pkg/request.py b/ombott/request_pkg/request.py
index 68eecad..16939c4 100644
--- a/ombott/request_pkg/request.py
+++ b/ombott/request_pkg/request.py
@@ -1,6 +1,8 @@
 
+from copy import copy
 from ..common_helpers import ts_props, SimpleConfig
 from ..mixable import Mixable
+from ..response import HTTPResponse
 
 from .props_mixin import PropsMixin
 from .body_mixin import BodyMixin
@@ -41,7 +43,8 @@ class BaseRequest:
         for err_cls in (err.__class__, except_class):
             out_err = errors_map.get(err_cls)
             if out_err:
-                err = out_err
+                # it`s shared by all requests, so neither traceback nor changes may be left on it
+                err = copy(out_err) if isinstance(out_err, HTTPResponse) else out_err
                 break
         raise err
 
diff --git a/ombott/response.py b/ombott/response.py
index bf8cebe..5f88b4e 100644
--- a/ombott/response.py
+++ b/ombott/response.py
@@ -285,6 +285,19 @@ class HTTPResponse(BaseResponse, OmbottException):
     def _copy_headers(self):
         return {k: (v[:] if isinstance(v, list) else v) for k, v in self._headers.items()}
 
+    def __copy__(self):
+        ''' Independent copy (without traceback), may be raised, applied and changed instead of `self`. '''
+        cls = self.__class__
+        ret = cls.__new__(cls)
+        ret.__dict__.update(self.__dict__)
+        ret.args = self.args
+        ret._status_line = self._status_line
+        ret._status_code = self._status_code
+        ret._headers = ret.headers.dict = self._copy_headers()
+        ret._cookies = deepcopy(self._cookies)
+        ret.body = self.body
+        return ret
+
 
 class HTTPError(HTTPResponse):
     __slots__ = ('exception', 'traceback')
@@ -296,6 +309,12 @@ class HTTPError(HTTPResponse):
         self.traceback = traceback
         super().__init__(body, status, **options)
 
+    def __copy__(self):
+        ret = super().__copy__()
+        ret.exception = self.exception
+        ret.traceback = self.traceback
+        return ret
+
 
 #: A dict to map HTTP status codes (e.g. 404) to phrases (e.g. 'Not Found')
 HTTP_CODES = httplib.responses
-- 
2.43.0


From 84035f6c5737080d1a75264e97f513e84e06ee2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:07 +0000
Subject: [PATCH 29/62] fix: rules can be parsed concurrently

---
 ombott/router/parser.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ombott/router/parser.py b/ombott/router/parser.py
index 26efea7..bbc5368 100644
--- a/ombott/router/parser.py
+++ b/ombott/router/parser.py
@@ -16,11 +16,11 @@ class Parser:
         self._rule = None
 
     def iter_parse(self, rule):
-        self._rule = rule
-        self._stream = SymStream(rule)
-        yield from self._iter_parse()
-        self._rule = None
-        self._stream = None
+        # the parser is shared, so each rule needs its own state
+        parser = self.__class__()
+        parser._rule = rule
+        parser._stream = SymStream(rule)
+        yield from parser._iter_parse()
 
     def _iter_parse(self):
         '''
-- 
2.43.0


From 711e0d8d12ba99201ff37ae6c09e8ac4a436c5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:01 +0000
Subject: [PATCH 30/62] fix: no 1xx response carries a body

---
 ombott/ombott.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index 07db97d..828026b 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -388,7 +388,8 @@ class Ombott:
             out = self._cast(self._handle(environ))
             # rfc2616 section 4.3
             if (
-                response._status_code in {100, 101, 204, 304}
+                100 <= response._status_code < 200
+                or response._status_code in {204, 304}
                 or environ['REQUEST_METHOD'] == 'HEAD'
             ):
                 close = getattr(out, 'close', None)
-- 
2.43.0


From 13debb4450eaa1f1dca85af3f384e9c0760c80c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:14 +0000
Subject: [PATCH 31/62] fix: a head request is a HEAD request in any case, as
 in routing

---
 ombott/ombott.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index 828026b..fa45c98 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -390,7 +390,7 @@ class Ombott:
             if (
                 100 <= response._status_code < 200
                 or response._status_code in {204, 304}
-                or environ['REQUEST_METHOD'] == 'HEAD'
+                or environ['REQUEST_METHOD'].upper() == 'HEAD'
             ):
                 close = getattr(out, 'close', None)
                 if close:
-- 
2.43.0


From b12c22c7eac10b80251bc86ff46f50e6af8b5041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:08 +0000
Subject: [PATCH 32/62] fix: the last-resort page has no body if the request is
 HEAD

---
 ombott/ombott.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index fa45c98..684bca4 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -415,6 +415,8 @@ class Ombott:
             environ['wsgi.errors'].write(err)
             headers = [('Content-Type', 'text/html; charset=UTF-8')]
             start_response('500 INTERNAL SERVER ERROR', headers, sys.exc_info())
+            if environ.get('REQUEST_METHOD', '').upper() == 'HEAD':
+                return []
             return [tob(err)]
 
     def __call__(self, environ, start_response):
-- 
2.43.0


From ccbd4df6baa8585f9dc576abfda15b546e4604ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:27 +0000
Subject: [PATCH 33/62] fix: text chunks are encoded in the charset of their
 own response, the first one before it starts

---
 ombott/ombott.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index 684bca4..59396a1 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -358,17 +358,26 @@ class Ombott:
                 # if not self.catchall: raise
                 first = HTTPError(500, 'Unhandled exception', err500, format_exc())
 
+            close = getattr(out, 'close', None)
             # These are the inner types allowed in iterator or generator objects.
             if isinstance(first, HTTPResponse):
                 out = first; continue                            # -----------------^
             elif isinstance(first, bytes):
                 new_iter = itertools.chain([first], iout)
             elif isinstance(first, str):
-                new_iter = (it.encode(response.charset) for it in itertools.chain([first], iout))
+                # the response may belong to another request when the rest is iterated
+                charset = response.charset
+                try:
+                    first = first.encode(charset)
+                except (LookupError, UnicodeError) as err500:
+                    if close:
+                        close()
+                    out = HTTPError(500, 'Unhandled exception', err500, format_exc())
+                    continue                                     # -----------------^
+                new_iter = itertools.chain([first], (it.encode(charset) for it in iout))
             else:
                 out = HTTPError(500, f'Unsupported response type: {type(first)}')
                 continue                                         # -----------------^
-            close = getattr(out, 'close', None)
             if close:
                 new_iter = _closeiter(new_iter, close)
             return new_iter
-- 
2.43.0


From db50ea50c22b54d81b4a5c92c6740d7e92d81d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:00 +0000
Subject: [PATCH 34/62] fix: the last-resort page can show any exception

---
 ombott/ombott.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index 59396a1..9e1ffd4 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -7,7 +7,6 @@ from urllib.parse import urljoin
 
 from .common_helpers import (
     html_escape,
-    tob,
     cached_property,
     WSGIFileWrapper,
     SimpleConfig,
@@ -416,17 +415,21 @@ class Ombott:
             err = '<h1>Critical error while processing request: %s</h1>' \
                   % html_escape(environ.get('PATH_INFO', '/'))
             if self.config.debug:
+                try:
+                    ex = repr(_e)
+                except Exception:
+                    ex = f'<unprintable {type(_e)} object>'
                 err += (
                     '<h2>Error:</h2>\n<pre>\n%s\n</pre>\n'
                     '<h2>Traceback:</h2>\n<pre>\n%s\n</pre>\n'
-                    % (html_escape(repr(_e)), html_escape(format_exc()))
+                    % (html_escape(ex), html_escape(format_exc()))
                 )
             environ['wsgi.errors'].write(err)
             headers = [('Content-Type', 'text/html; charset=UTF-8')]
             start_response('500 INTERNAL SERVER ERROR', headers, sys.exc_info())
             if environ.get('REQUEST_METHOD', '').upper() == 'HEAD':
                 return []
-            return [tob(err)]
+            return [err.encode('utf8', 'backslashreplace')]
 
     def __call__(self, environ, start_response):
         return self.wsgi(environ, start_response)
-- 
2.43.0


From 23842e29ec444553a4c9c43a04ab36dd4f9b15cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:01 +0000
Subject: [PATCH 35/62] fix: a response with repeated headers can be copied

---
 ombott/response.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ombott/response.py b/ombott/response.py
index 5f88b4e..e5eb45c 100644
--- a/ombott/response.py
+++ b/ombott/response.py
@@ -96,7 +96,8 @@ class BaseResponse:
         ''' Returns a copy of self. '''
         cls = cls or BaseResponse
         assert issubclass(cls, BaseResponse)
-        copy = cls(status = self.status, headers = self.headers.copy().dict)
+        copy = cls(status = self.status)
+        copy.headers.update(self.headers.copy().dict)
         if self._cookies:
             copy._cookies = SimpleCookie()
             copy._cookies.load(self._cookies.output(header=''))
-- 
2.43.0


From c8a11aa51e84e9cd509bae536917e82af7509723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:33 +0000
Subject: [PATCH 36/62] fix: the full path of a request is not a reference to
 be resolved

---
 ombott/request_pkg/props_mixin.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ombott/request_pkg/props_mixin.py b/ombott/request_pkg/props_mixin.py
index cce942c..bbbff5a 100644
--- a/ombott/request_pkg/props_mixin.py
+++ b/ombott/request_pkg/props_mixin.py
@@ -2,7 +2,6 @@ import base64
 from http.cookies import SimpleCookie
 from urllib.parse import (
     quote as urlquote,
-    urljoin,
     SplitResult as UrlSplitResult
 )
 
@@ -103,7 +102,7 @@ class PropsMixin:
     def fullpath(self):
         """ Request path including :attr:`script_name` (if present). """
         appname = self._env_get(self.config.app_name_header, '/')
-        return urljoin(self.script_name, self.path[len(appname):].lstrip('/'))
+        return self.script_name + self.path[len(appname):].lstrip('/')
 
     @property
     def query_string(self):
-- 
2.43.0


From 8f654680e22d5ffab17f06f23c3a5c3b566b238a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:47 +0000
Subject: [PATCH 37/62] fix: the last-resort page is JSON if JSON is requested

---
 ombott/ombott.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index 9e1ffd4..ab94636 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -425,7 +425,10 @@ class Ombott:
                     % (html_escape(ex), html_escape(format_exc()))
                 )
             environ['wsgi.errors'].write(err)
-            headers = [('Content-Type', 'text/html; charset=UTF-8')]
+            ctype = 'text/html; charset=UTF-8'
+            if (environ.get('HTTP_ACCEPT') or '').startswith('application/json'):
+                ctype, err = 'application/json', json.dumps(dict(body=err))
+            headers = [('Content-Type', ctype)]
             start_response('500 INTERNAL SERVER ERROR', headers, sys.exc_info())
             if environ.get('REQUEST_METHOD', '').upper() == 'HEAD':
                 return []
-- 
2.43.0


From 8b8a1eddc84dbb77e9a4b1e068d40d0ce983f39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:44 +0000
Subject: [PATCH 38/62] fix: a CR in the path does not match a wildcard as if
 it was literal text

---
 ombott/router/radidict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ombott/router/radidict.py b/ombott/router/radidict.py
index 863bc77..42f5cbf 100644
--- a/ombott/router/radidict.py
+++ b/ombott/router/radidict.py
@@ -397,7 +397,7 @@ class RadiDict:
                 else:
                     c0 = route[i]
                     for ic, c in enumerate(idx):
-                        if c == c0:
+                        if c == c0 and c != TOKEN:  # a path may contain TOKEN as text
                             kidx = ic; break  # found!
 
                 if kidx is None:  # not found
-- 
2.43.0


From 80d2c27669c1728207276f15de26429b484f2d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:05 +0000
Subject: [PATCH 39/62] fix: a handler gets the parameters named in its own
 rule

---
 ombott/router/radirouter.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index 8905534..cf76886 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -6,13 +6,15 @@ from .parser import Parser
 
 
 class RouteMethod:
-    __slots__ = ('route', 'name', 'handler', 'meta')
+    __slots__ = ('route', 'name', 'handler', 'meta', 'params')
 
-    def __init__(self, route, name, handler, meta=None):
+    def __init__(self, route, name, handler, meta=None, params=None):
         self.route = route
         self.name = name
         self.handler = handler
         self.meta = meta
+        #: parameter names of the rule the handler was registered under, `route.rule` may be another one
+        self.params = route.params if params is None else params
 
     def remove(self):
         self.route.remove_method(self.name)
@@ -110,14 +112,14 @@ class Route:
 
         return ''.join(ret)
 
-    def _set_methods(self, methods, handler, meta=None):
+    def _set_methods(self, methods, handler, meta=None, params=None):
         for meth in methods:
-            self._methods[meth] = RouteMethod(self, meth, handler, meta)
+            self._methods[meth] = RouteMethod(self, meth, handler, meta, params)
 
-    def set_method(self, method, handler, meta=None):
+    def set_method(self, method, handler, meta=None, params=None):
         if isinstance(method, str):
             method = [method]
-        self._set_methods(method, handler, meta)
+        self._set_methods(method, handler, meta, params)
 
     def _raise_if_registered(self, method, candidate):
         registered = set(self._methods) & set(method)
@@ -133,11 +135,11 @@ class Route:
                 f'but there are already registered: `{registered_fullnames}`'
             )
 
-    def add_method(self, method, handler, meta=None):
+    def add_method(self, method, handler, meta=None, params=None):
         if isinstance(method, str):
             method = [method]
         self._raise_if_registered(method, handler)
-        self._set_methods(method, handler, meta)
+        self._set_methods(method, handler, meta, params)
 
     def remove_method(self, method):
         if isinstance(method, str):
@@ -316,7 +318,7 @@ class RadiRouter:
             return None, [404, 'Not Found', extra]
         try:
             meth = route[methods]
-            params = route.make_params_dict(extra['param_keys'], extra['param_values'])
+            params = route.make_params_dict(meth.params, extra['param_values'])
             return [meth, params, extra['hooks']], None
         except RouteMethodError:
             allowed = ",".join(sorted(route.methods))
@@ -373,6 +375,7 @@ class RadiRouter:
 
     def _add(self, rule, methods, handler, name=None, *, meta=None, overwrite=False):
         route = Route(rule)
+        params = route.params
         route_ = self._match(route.pattern, route.filters)
         if route_:
             route = route_
@@ -381,9 +384,9 @@ class RadiRouter:
             self.routes[route.pattern] = route
 
         if overwrite:
-            route.set_method(methods, handler, meta)
+            route.set_method(methods, handler, meta, params)
         else:
-            route.add_method(methods, handler, meta)
+            route.add_method(methods, handler, meta, params)
 
         if name:
             registered = self.named_routes.get(name)
-- 
2.43.0


From 624ce33654822bf727d2584a61113823449f4582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:24 +0000
Subject: [PATCH 40/62] fix: filter selectors are not mixed up with text behind
 the parameter

---
 ombott/router/radidict.py   | 11 ++++++++++-
 ombott/router/radirouter.py |  4 ++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/ombott/router/radidict.py b/ombott/router/radidict.py
index 42f5cbf..4276e03 100644
--- a/ombott/router/radidict.py
+++ b/ombott/router/radidict.py
@@ -30,6 +30,15 @@ class MismatchType(IntEnum):
     EXCLUSIVITY = 5
 
 
+def selector_key(selector):
+    ''' Part of a pattern that stands for the filter selector.
+
+    It's enclosed by lone surrogates, as neither a rule nor a (decoded) path contains these,
+    otherwise the selector would be mixed up with the text behind the parameter.
+    '''
+    return f'\udc00{selector}\udc00'
+
+
 class RadiDictError(Exception):
     pass
 
@@ -427,7 +436,7 @@ class RadiDict:
                                 look_back.append(
                                     [route, pnode, i, L, params[:], hooks[:], False]
                                 )
-                                route = str(selector) + route[i:]
+                                route = selector_key(selector) + route[i:]
                                 i = 0
                                 L = len(route)
                                 selector = None
diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index cf76886..902dc3a 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -1,5 +1,5 @@
 from enum import IntEnum
-from .radidict import RadiDict, DATA, HOOKS
+from .radidict import RadiDict, DATA, HOOKS, selector_key
 from .filter_factory import FilterFactory
 from .errors import RouteBuildError, RouteMethodError
 from .parser import Parser
@@ -185,7 +185,7 @@ class Route:
         filters_out = []
         anon_counter = 0
         for part, param, filter, filter_args, filter_selector in cls.parser.iter_parse(rule):
-            filter_selector = filter_selector or ''
+            filter_selector = selector_key(filter_selector) if filter_selector else ''
             if not part:  # it is param or/and filter
                 part = '\r'
                 if not param:
-- 
2.43.0


From a359512a8db9f41a5555e24090ae65623b65a89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:48 +0000
Subject: [PATCH 41/62] fix: a wildcard does not bind the filter selector of
 the one in front of it

---
 ombott/router/radidict.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ombott/router/radidict.py b/ombott/router/radidict.py
index 4276e03..0ea17a2 100644
--- a/ombott/router/radidict.py
+++ b/ombott/router/radidict.py
@@ -30,13 +30,16 @@ class MismatchType(IntEnum):
     EXCLUSIVITY = 5
 
 
+# a lone surrogate, neither a rule nor a (decoded) path contains it
+SELECTOR_TOKEN = '\udc00'
+
+
 def selector_key(selector):
     ''' Part of a pattern that stands for the filter selector.
 
-    It's enclosed by lone surrogates, as neither a rule nor a (decoded) path contains these,
-    otherwise the selector would be mixed up with the text behind the parameter.
+    It's enclosed by tokens to not be mixed up with the text behind the parameter.
     '''
-    return f'\udc00{selector}\udc00'
+    return f'{SELECTOR_TOKEN}{selector}{SELECTOR_TOKEN}'
 
 
 class RadiDictError(Exception):
@@ -411,7 +414,7 @@ class RadiDict:
 
                 if kidx is None:  # not found
                     # maybe token or look_back
-                    if c == TOKEN:
+                    if c == TOKEN and route[i] != SELECTOR_TOKEN:
                         token_node = pnode[-1]
                         filter = token_node[FILTER]
                         if filter:
-- 
2.43.0


From ab174548ae16986cfcd7e93ff2c6bc3f097f2dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:20 +0000
Subject: [PATCH 42/62] fix: a parameter behind a path filter is no literal
 text

---
 ombott/router/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ombott/router/parser.py b/ombott/router/parser.py
index bbc5368..9e59fcd 100644
--- a/ombott/router/parser.py
+++ b/ombott/router/parser.py
@@ -45,7 +45,7 @@ class Parser:
                 if filter == 'path':
                     tail = S.rest()
                     tmp = re.match(fr'[^{param_tokens}]+', tail)
-                    token_pos = tmp.end() if tmp else len(tail)
+                    token_pos = tmp.end() if tmp else 0
                     filter_args = tail[: token_pos]
             # static logic
             else:
-- 
2.43.0


From 68e1109be06bbe3282362b1cc7ff5d815cd6fda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:07 +0000
Subject: [PATCH 43/62] fix: method names of a route are case-insensitive

---
 ombott/router/radirouter.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index 902dc3a..7eb7170 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -112,14 +112,18 @@ class Route:
 
         return ''.join(ret)
 
+    @staticmethod
+    def _upper_names(method):
+        if isinstance(method, str):
+            method = [method]
+        return [name.upper() for name in method]
+
     def _set_methods(self, methods, handler, meta=None, params=None):
         for meth in methods:
             self._methods[meth] = RouteMethod(self, meth, handler, meta, params)
 
     def set_method(self, method, handler, meta=None, params=None):
-        if isinstance(method, str):
-            method = [method]
-        self._set_methods(method, handler, meta, params)
+        self._set_methods(self._upper_names(method), handler, meta, params)
 
     def _raise_if_registered(self, method, candidate):
         registered = set(self._methods) & set(method)
@@ -136,24 +140,19 @@ class Route:
             )
 
     def add_method(self, method, handler, meta=None, params=None):
-        if isinstance(method, str):
-            method = [method]
+        method = self._upper_names(method)
         self._raise_if_registered(method, handler)
         self._set_methods(method, handler, meta, params)
 
     def remove_method(self, method):
-        if isinstance(method, str):
-            method = [method]
-        [self._methods.pop(m, None) for m in method]
+        [self._methods.pop(m, None) for m in self._upper_names(method)]
 
     @property
     def methods(self):
         return dict(self._methods)
 
     def __getitem__(self, method):
-        if isinstance(method, str):
-            method = [method]
-        for name in method:
+        for name in self._upper_names(method):
             meth = self._methods.get(name)
             if meth:
                 return meth
-- 
2.43.0


From 24f8c06c5dbd5a6baaa3f0fe839fb8c0e7363480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:50 +0000
Subject: [PATCH 44/62] fix: removal of a route keeps the hooks of its node,
 removal of hooks removes them from any node

---
 ombott/router/radidict.py | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/ombott/router/radidict.py b/ombott/router/radidict.py
index 0ea17a2..557ac77 100644
--- a/ombott/router/radidict.py
+++ b/ombott/router/radidict.py
@@ -336,35 +336,32 @@ class RadiDict:
 
     def remove(self, route_pattern, hooks_only=False):
 
-        is_wildcard = False
         if route_pattern and route_pattern[-1] == '*':
-            route_pattern = route_pattern[:-1]
-            is_wildcard = True
             if hooks_only:
                 raise RadiDictError('Can`t remove hooks by wildcard')
+            patterns = [
+                ''.join([node[KEY] for node in path])[1:]  # root key isn`t part of the pattern
+                for path in self._routes_iter(startswith = route_pattern[:-1])
+            ]
+            for pattern in patterns:
+                self._remove(pattern, DATA)
+        else:
+            self._remove(route_pattern, HOOKS if hooks_only else DATA)
 
+    def _remove(self, route_pattern, item_idx):
         node, mismatch, ptr, prm_idx, stack = (
             self._match(route_pattern, pnode = self.root)
         )
-
-        if is_wildcard and (
-            not mismatch
-            or mismatch == MismatchType.PARTIAL
-            and node[KEY].startswith(route_pattern[ptr:])
-        ):
-            node[IDX] = None
-            del node[OFFSET:]
-        elif mismatch:
+        if mismatch:
             return
 
-        if hooks_only and node[DATA] is not None:
-            node[HOOKS] = None
-            return
+        node[item_idx] = None
+        if item_idx == DATA:
+            node[PARAMS] = []
 
+        # remove nodes that became useless
         stack.reverse()
         assert node is stack[0]
-        node[DATA] = None
-        node[PARAMS] = []
         key0_to_del = None
         for node in stack:
             if key0_to_del:
@@ -375,8 +372,8 @@ class RadiDict:
                     )
                 node[IDX] = node[IDX].replace(key0_to_del, '')
                 del node[OFFSET + kidx]
-                self._try_merge(node)
-            if not (node[DATA] or node[IDX]):
+            self._try_merge(node)
+            if not (node[DATA] or node[HOOKS] or node[IDX]):
                 key0_to_del = node[KEY][0]
             else:
                 break
-- 
2.43.0


From 321da26f6422f331cbfe31ce69790f4f954fa706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:13 +0000
Subject: [PATCH 45/62] fix: no name of a removed route is left behind

---
 ombott/router/radirouter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index 7eb7170..3f2baba 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -283,6 +283,7 @@ class RadiRouter:
         self.radidict.remove(route_pattern)
         if route:
             del self.routes[route.pattern]
+            self._remove_named_routers({route.pattern})
         else:
             if route_pattern.endswith('*'):
                 route_pattern = route_pattern[:-1]
-- 
2.43.0


From 763473c2d779978c353a5bae3c5c7a5ac88ef746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:30 +0000
Subject: [PATCH 46/62] fix: a route refused because of its name is not
 registered

---
 ombott/router/radirouter.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index 3f2baba..fe75962 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -377,6 +377,11 @@ class RadiRouter:
         route = Route(rule)
         params = route.params
         route_ = self._match(route.pattern, route.filters)
+        if name and not overwrite:
+            registered = self.named_routes.get(name)
+            if registered and registered is not route_:
+                raise RouteBuildError(f'Can`t register route, name `{name}` is already used')
+
         if route_:
             route = route_
         else:
@@ -389,9 +394,6 @@ class RadiRouter:
             route.add_method(methods, handler, meta, params)
 
         if name:
-            registered = self.named_routes.get(name)
-            if not overwrite and registered and registered is not route:
-                raise RouteBuildError(f'Can`t register route, name `{name}` is already used')
             self.named_routes[name] = route
         return route
 
-- 
2.43.0


From bf6a7b982557c64b30afb19279aa6581f5f7c8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:49 +0000
Subject: [PATCH 47/62] fix: a rule with duplicate parameter names is refused
 before it changes the router

---
 ombott/router/radirouter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index fe75962..b64ffc4 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -190,6 +190,8 @@ class Route:
                 if not param:
                     param = f'{cls.anon_prefix}{anon_counter}'
                     anon_counter += 1
+                if param in params:
+                    raise RouteBuildError(f'Parameter name `{param}` is used twice: {rule}')
                 params.append(param)
                 h, f_out = cls.make_filter(filter, filter_args)
                 filters.append(h)
-- 
2.43.0


From 0475299366da8f01d9542add0c30b854dda09864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:37 +0000
Subject: [PATCH 48/62] fix: a hook behind a filter selector gets the matched
 path prefix

---
 ombott/router/radidict.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ombott/router/radidict.py b/ombott/router/radidict.py
index 557ac77..0cb1b76 100644
--- a/ombott/router/radidict.py
+++ b/ombott/router/radidict.py
@@ -383,6 +383,7 @@ class RadiDict:
         TOKEN: str = self.param_token
         PATH_SEP: str = self.path_sep
         L: int = len(route)
+        path_len = L  # filter selector changes the route, but not what is left of the path
 
         pnode = self.root
         params = []
@@ -431,7 +432,7 @@ class RadiDict:
                             pnode = token_node
                             h = pnode[HOOKS]
                             if h:
-                                hooks.append([i, h])
+                                hooks.append([path_len - (L - i), h])
                             if selector is not None:
                                 look_back.append(
                                     [route, pnode, i, L, params[:], hooks[:], False]
@@ -458,7 +459,7 @@ class RadiDict:
                     i = key_end
                     h = pnode[HOOKS]
                     if h:
-                        hooks.append([i, h])
+                        hooks.append([path_len - (L - i), h])
                 else:
                     break  # while
 
-- 
2.43.0


From 85333fe1415e2bda170724d9de9561494ae17d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:36 +0000
Subject: [PATCH 49/62] fix: a hook with other filters does not replace the one
 already here

---
 ombott/router/radirouter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index b64ffc4..e4b0024 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -336,7 +336,7 @@ class RadiRouter:
 
     def add_hook(self, rule, *args, **kwargs):
         route_pattern, params, filters, _, _ = self.parse_rule(rule)
-        route_hooks = self._match(route_pattern = route_pattern, get_hooks = True)
+        route_hooks = self._match(filters = filters, route_pattern = route_pattern, get_hooks = True)
         new_route_hooks = self.hook_installer(route_hooks, *args, **kwargs)
         if new_route_hooks is not None and new_route_hooks is not route_hooks:
             params = {name: [False, filter] for name, filter in zip(params, filters)}
-- 
2.43.0


From fa6e3a3b446f53ade29fe837430de2b980a63275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:26 +0000
Subject: [PATCH 50/62] fix: a number too long for the int filter does not
 match

---
 ombott/router/filter_factory.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ombott/router/filter_factory.py b/ombott/router/filter_factory.py
index ac25aa1..21401ba 100644
--- a/ombott/router/filter_factory.py
+++ b/ombott/router/filter_factory.py
@@ -67,7 +67,10 @@ class FilterFactory:
                     tmp = mask.match(param)
                     if not tmp:
                         return None, 0, None
-                    return f_in(tmp.group()), tmp.end(), None
+                    try:
+                        return f_in(tmp.group()), tmp.end(), None
+                    except ValueError:  # e.g. too many digits for `int`
+                        return None, 0, None
         else:
             def handler(param):
                 tmp = mask.match(param)
-- 
2.43.0


From 2d986bc2bf566f6a4e5223df5ecd7a348524f5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:48 +0000
Subject: [PATCH 51/62] fix: a cookie with empty text does not read as absent

---
 ombott/request_pkg/props_mixin.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ombott/request_pkg/props_mixin.py b/ombott/request_pkg/props_mixin.py
index bbbff5a..a8cd88b 100644
--- a/ombott/request_pkg/props_mixin.py
+++ b/ombott/request_pkg/props_mixin.py
@@ -61,10 +61,12 @@ class PropsMixin:
             :meth:`BaseResponse.set_cookie`). If anything goes wrong (missing
             cookie or wrong signature), return a default value. """
         value = self.cookies.get(key)
-        if secret and value:
+        if value is None:
+            return default
+        if secret:
             dec = cookie_decode(value, secret)  # (key, value) tuple or None
             return dec[1] if dec and dec[0] == key else default
-        return value or default
+        return value
 
     @cache_in('environ[ ombott.request.params ]', read_only=True)
     def params(self):
-- 
2.43.0


From b610593ebc12e345176c6b9e2824a1164c1c1173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:48 +0000
Subject: [PATCH 52/62] fix: a cookie http.cookies dislikes does not hide the
 other cookies

---
 ombott/request_pkg/props_mixin.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ombott/request_pkg/props_mixin.py b/ombott/request_pkg/props_mixin.py
index a8cd88b..91a3e5d 100644
--- a/ombott/request_pkg/props_mixin.py
+++ b/ombott/request_pkg/props_mixin.py
@@ -52,8 +52,12 @@ class PropsMixin:
     def cookies(self):
         """ Cookies parsed into a :class:`CookieDict`. Signed cookies are NOT
             decoded. Use :meth:`get_cookie` if you expect signed cookies. """
-        cookies = SimpleCookie(self._env_get('HTTP_COOKIE', '')).values()
-        return self._cookie_factory((c.key, c.value) for c in cookies)
+        unquote = SimpleCookie().value_decode
+        # a cookie of someone else, however odd, must not hide the other ones
+        cookies = (c.partition('=') for c in self._env_get('HTTP_COOKIE', '').split(';'))
+        return self._cookie_factory(
+            (name.strip(' \t'), unquote(value.strip(' \t'))[0]) for name, eq, value in cookies if eq
+        )
 
     def get_cookie(self, key, default=None, secret=None):
         """ Return the content of a cookie. To read a `Signed Cookie`, the
-- 
2.43.0


From 9fcb08b0c64d508ec6fa832a64336cf825f6f97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:48 +0000
Subject: [PATCH 53/62] fix: copy of a response has all of its cookies

---
 ombott/response.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ombott/response.py b/ombott/response.py
index e5eb45c..61941a6 100644
--- a/ombott/response.py
+++ b/ombott/response.py
@@ -99,8 +99,7 @@ class BaseResponse:
         copy = cls(status = self.status)
         copy.headers.update(self.headers.copy().dict)
         if self._cookies:
-            copy._cookies = SimpleCookie()
-            copy._cookies.load(self._cookies.output(header=''))
+            copy._cookies = deepcopy(self._cookies)
         return copy
 
     def __iter__(self):
-- 
2.43.0


From f3e768be49915c83b9ad8830f789145a31d8d769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:48 +0000
Subject: [PATCH 54/62] fix: non-ASCII text of a cookie reads back unchanged

---
 ombott/request_pkg/props_mixin.py | 5 ++++-
 ombott/response.py                | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/ombott/request_pkg/props_mixin.py b/ombott/request_pkg/props_mixin.py
index 91a3e5d..1d77d63 100644
--- a/ombott/request_pkg/props_mixin.py
+++ b/ombott/request_pkg/props_mixin.py
@@ -70,7 +70,10 @@ class PropsMixin:
         if secret:
             dec = cookie_decode(value, secret)  # (key, value) tuple or None
             return dec[1] if dec and dec[0] == key else default
-        return value
+        try:
+            return value.encode('latin1').decode('utf8')
+        except UnicodeError:
+            return value
 
     @cache_in('environ[ ombott.request.params ]', read_only=True)
     def params(self):
diff --git a/ombott/response.py b/ombott/response.py
index 61941a6..2c760c2 100644
--- a/ombott/response.py
+++ b/ombott/response.py
@@ -229,7 +229,8 @@ class BaseResponse:
         if len(value) > 4096:
             raise ValueError('Cookie value to long.')
 
-        self._cookies[name] = value
+        # WSGI strings are latin1, see `Request.get_cookie`
+        self._cookies[name] = value.encode('utf8').decode('latin1')
 
         for key, value in options.items():
             if key == 'max_age':
-- 
2.43.0


From 827c6b81c4086cc5191bff71eb5c98edc3c8d86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:19 +0000
Subject: [PATCH 55/62] fix: an empty If-Modified-Since header does not fail
 the request

---
 ombott/static_stream.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ombott/static_stream.py b/ombott/static_stream.py
index a797da1..705a499 100644
--- a/ombott/static_stream.py
+++ b/ombott/static_stream.py
@@ -102,8 +102,7 @@ def static_file(filename, root, mimetype='auto', download=False, charset='UTF-8'
     headers['Last-Modified'] = email.utils.formatdate(stats.st_mtime, usegmt=True)
 
     ims = env_get('HTTP_IF_MODIFIED_SINCE')
-    if ims:
-        ims = parse_date(ims.split(";")[0].strip())
+    ims = parse_date(ims.split(";")[0].strip()) if ims else None
     if ims is not None and ims >= int(stats.st_mtime):
         headers['Date'] = email.utils.formatdate(time.time(), usegmt=True)
         return HTTPResponse(status=304, **headers)
-- 
2.43.0


From 6324483dfb9bbf6fb22f6d2b48333db948a5d4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:31 +0000
Subject: [PATCH 56/62] fix: a Range header in other units or with odd numbers
 does not count as a range of bytes

---
 ombott/static_stream.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/ombott/static_stream.py b/ombott/static_stream.py
index 705a499..42d1b3c 100644
--- a/ombott/static_stream.py
+++ b/ombott/static_stream.py
@@ -1,4 +1,5 @@
 import os
+import re
 import mimetypes
 import time
 
@@ -9,24 +10,21 @@ from .response import HTTPResponse, HTTPError
 from .ombott import Globals
 
 
+# digits only, `int()` takes signs and underscores as well
+_first_range_re = re.compile(r'\s*bytes=\s*([0-9]*)\s*-\s*([0-9]*)\s*(?:,|\Z)')
+
+
 def get_first_range(header, maxlen=0):
     ''' Return (start, end) of first range in ranges parsed from a HTTP Range header.
         Skip unsatisfiable ranges. The end index is non-inclusive.
 
     '''
-    try:
-        ranges_str = header.split('bytes=', 1)[1]
-    except IndexError:
-        # no-perix/unsupported-units
-        return
-
-    first_range = ranges_str.split(',', 1)[0]
-    try:
-        start, end = first_range.split('-')
-    except ValueError:
-        # too-many/not-enougth values to unpack (invalid range)
+    match = _first_range_re.match(header)
+    if not match:
+        # no-perix/unsupported-units/invalid range
         return
 
+    start, end = match.groups()
     try:
         if not start:  # bytes=-100    -> last 100 bytes
             start, end = max(0, maxlen - int(end)), maxlen
-- 
2.43.0


From 7878ac5c5ebd50c1d3d2c1984fea7ae7d26f7712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:45 +0000
Subject: [PATCH 57/62] fix: parse_date does not depend on the history of the
 local time zone

---
 ombott/common_helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ombott/common_helpers.py b/ombott/common_helpers.py
index c39948a..be38639 100644
--- a/ombott/common_helpers.py
+++ b/ombott/common_helpers.py
@@ -6,7 +6,7 @@ import pickle
 import hmac
 import hashlib
 import email.utils
-import time
+import calendar
 from . import errors
 
 
@@ -14,7 +14,7 @@ def parse_date(ims):
     """ Parse rfc1123, rfc850 and asctime timestamps and return UTC epoch. """
     try:
         ts = email.utils.parsedate_tz(ims)
-        return time.mktime(ts[:8] + (0,)) - (ts[9] or 0) - time.timezone
+        return calendar.timegm(ts) - (ts[9] or 0)
     except (TypeError, ValueError, IndexError, OverflowError):
         return None
 
-- 
2.43.0


From 61b487deedab8d04f3ae8a2b057ac8e5fe9c7097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:50 +0000
Subject: [PATCH 58/62] fix: the handler's iterable is closed if the
 last-resort page replaces it

---
 ombott/ombott.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index ab94636..5ab7a11 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -392,23 +392,30 @@ class Ombott:
                 environ[config.app_name_header] = '/' + app_name
                 environ["PATH_INFO"] = '/' + app_name + environ["PATH_INFO"]
 
+        close = None
         try:
             out = self._cast(self._handle(environ))
+            close = getattr(out, 'close', None)
             # rfc2616 section 4.3
             if (
                 100 <= response._status_code < 200
                 or response._status_code in {204, 304}
                 or environ['REQUEST_METHOD'].upper() == 'HEAD'
             ):
-                close = getattr(out, 'close', None)
-                if close:
-                    close()
                 out = []
+                if close:
+                    _close, close = close, None
+                    _close()
             start_response(response._status_line, response.headerlist)
             return out
         except (KeyboardInterrupt, SystemExit, MemoryError):
             raise
         except Exception as _e:
+            if close:  # `out` is replaced by the error page
+                try:
+                    close()
+                except Exception:
+                    environ['wsgi.errors'].write(format_exc())
             if not self.config.catchall:
                 raise
 
-- 
2.43.0


From 6c981b1b457c9b837b17946cfa8273e04d2b1899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:31 +0000
Subject: [PATCH 59/62] fix: an iterable that yields a response or an
 unsupported item first is closed

---
 ombott/ombott.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index 5ab7a11..d8c4dfc 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -360,6 +360,8 @@ class Ombott:
             close = getattr(out, 'close', None)
             # These are the inner types allowed in iterator or generator objects.
             if isinstance(first, HTTPResponse):
+                if close:
+                    close()
                 out = first; continue                            # -----------------^
             elif isinstance(first, bytes):
                 new_iter = itertools.chain([first], iout)
@@ -375,6 +377,8 @@ class Ombott:
                     continue                                     # -----------------^
                 new_iter = itertools.chain([first], (it.encode(charset) for it in iout))
             else:
+                if close:
+                    close()
                 out = HTTPError(500, f'Unsupported response type: {type(first)}')
                 continue                                         # -----------------^
             if close:
-- 
2.43.0


From 6dd651941280319b6f44e972e1b5ec00650d3ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:39 +0000
Subject: [PATCH 60/62] fix: a request without PATH_INFO (an empty value may be
 omitted) is routed as the root path

---
 ombott/ombott.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index d8c4dfc..fb56428 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -389,6 +389,7 @@ class Ombott:
         config: DefaultConfig = self.config
         response = self.response
 
+        environ.setdefault('PATH_INFO', '')  # an empty value may be omitted by the server
         domain_map = config.domain_map
         if domain_map:
             app_name = domain_map(environ.get('HTTP_X_FORWARDED_HOST') or environ.get('HTTP_HOST'))
-- 
2.43.0


From a39782be27fab6e8a3b4206d54f8ac8b0c518d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:01 +0000
Subject: [PATCH 61/62] fix: a status text with control characters or a
 malformed number was sent as the status line; reason phrases outside latin-1
 broke the server

The status line went to start_response as the handler wrote it: '404 no such\r\nX-Y: z' split the
response, '+200 x' and '2_00 x' were sent as they are, and a phrase with characters outside
latin-1 could not be sent at all. Malformed lines are refused where they are set (a handler's
ValueError becomes a 500 response), other phrases are encoded like header values.
---
 ombott/ombott.py   | 3 ++-
 ombott/response.py | 4 ++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index fb56428..f94c734 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -411,7 +411,8 @@ class Ombott:
                 if close:
                     _close, close = close, None
                     _close()
-            start_response(response._status_line, response.headerlist)
+            # WSGI strings are latin1, the reason phrase may be any text
+            start_response(response._status_line.encode('utf8').decode('latin1'), response.headerlist)
             return out
         except (KeyboardInterrupt, SystemExit, MemoryError):
             raise
diff --git a/ombott/response.py b/ombott/response.py
index 2c760c2..eaf4368 100644
--- a/ombott/response.py
+++ b/ombott/response.py
@@ -4,6 +4,7 @@ import email.utils
 import http.client as httplib
 from http.cookies import SimpleCookie
 import calendar
+import re
 
 from .common_helpers import (
     ts_props,
@@ -138,6 +139,9 @@ class BaseResponse:
             code, status = status, _HTTP_STATUS_LINES.get(status)
         elif ' ' in status:
             status = status.strip()
+            # the line goes to the client as is
+            if not re.fullmatch(r'[1-9][0-9]{2} [^\x00-\x1f\x7f]+', status):
+                raise ValueError('Malformed status line: %r' % status)
             code = int(status.split()[0])
         else:
             raise ValueError('String status line without a reason phrase.')
-- 
2.43.0


From 1f82be469f913beda1a28792733a8610151ecd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:02 +0000
Subject: [PATCH 62/62] fix: malformed header names, and header values set by
 headers.update(), reached the server unchecked

Names were not checked at all and `update` (or `setdefault` with a list) does not check values,
so that line breaks in them split the response. `headerlist` checks what is about to be sent;
the ValueError is answered with the critical error page.
---
 ombott/response.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ombott/response.py b/ombott/response.py
index eaf4368..68409c1 100644
--- a/ombott/response.py
+++ b/ombott/response.py
@@ -16,6 +16,9 @@ from .common_helpers import (
 from .errors import OmbottException
 
 
+_is_header_name = re.compile(r"[!#$%&'*+\-.^_`|~0-9A-Za-z]+").fullmatch
+
+
 def http_date(value):
     if isinstance(value, str):
         return value
@@ -172,6 +175,10 @@ class BaseResponse:
                 out.append(
                     ('Set-Cookie', c.OutputString().encode('utf8').decode('latin1'))
                 )
+        for name, value in out:
+            # some ways to set a header (e.g. `headers.update`) don't check it
+            if not _is_header_name(name) or '\n' in value or '\r' in value or '\0' in value:
+                raise ValueError('Malformed header: %r: %r' % (name, value))
         return out
 
     content_type = HeaderProperty('Content-Type')
-- 
2.43.0

