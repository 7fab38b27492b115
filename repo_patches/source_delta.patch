From cc2c30898f836866e80213f4d3a0671da98c25ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:33 +0000
Subject: [PATCH 01/60] fix: count the bytes a short read really returned
 (Content-Length body)

---
 ombott/request_pkg/body_mixin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index 3f8b890..b7f375c 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -26,7 +26,7 @@ def _iter_body(read, buff_size, *, content_length):
         if not part:
             break
         yield part
-        rest_len -= part_size
+        rest_len -= len(part)
 
 
 def _iter_chunked(read, buff_size):
-- 
2.43.0


From 278d96ebe91228b28b1bedde80073eac88caef2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:33 +0000
Subject: [PATCH 02/60] fix: decode chunked bodies exactly when the stream
 returns short reads

---
 ombott/request_pkg/body_mixin.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index b7f375c..7e5aa12 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -73,8 +73,11 @@ def _iter_chunked(read, buff_size):
             if not part:
                 raise parsing_err
             yield part
-            rest_len -= part_size
-        if read(2) != rn:
+            rest_len -= len(part)
+        chunk_end = read(2)
+        if len(chunk_end) == 1:  # short read
+            chunk_end += read(1)
+        if chunk_end != rn:
             raise parsing_err
 
 
-- 
2.43.0


From b4eba39370cb8871a912f5a030a31d74baac62db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:21 +0000
Subject: [PATCH 03/60] fix: multipart section start does not depend on where a
 read ended

---
 ombott/request_pkg/multipart.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/ombott/request_pkg/multipart.py b/ombott/request_pkg/multipart.py
index 29b6f4e..b3de99a 100644
--- a/ombott/request_pkg/multipart.py
+++ b/ombott/request_pkg/multipart.py
@@ -90,13 +90,13 @@ class HeadersEaeter:
         return pos
 
     def _eat_last_hyphen(self, chunk: bytes, base: int) -> Optional[int]:
-        chunk_start = chunk[base: base + 2]
+        chunk_start = chunk[base: base + 1]
         if not chunk_start:
             return
         if chunk_start == HYPHEN:
             self.stopped = True
             return base + 1
-        raise UnexpectedBodyEndError(f'Last hyphen was expected, got (first 2 symbols slice): {chunk_start}')
+        raise UnexpectedBodyEndError(f'Last hyphen was expected, got: {chunk_start}')
 
     def _eat_lf(self, chunk: bytes, base: int) -> Optional[int]:
         chunk_start = chunk[base: base + 1]
@@ -108,22 +108,17 @@ class HeadersEaeter:
         raise MalformedHeadersError(f'Malformed headers, found invalid sequence: {invalid_sequence}')
 
     def _eat_first_crlf_or_last_hyphens(self, chunk: bytes, base: int) -> Optional[int]:
-        chunk_start = chunk[base: base + 2]
+        chunk_start = chunk[base: base + 1]
         if not chunk_start:
             return
 
-        if chunk_start == CRLF:
-            return base + 2
-
-        if len(chunk_start) == 1:
-            self.eat_meth = self._meth_map.get(chunk_start)
-        elif chunk_start == HYPHENx2:
-            self.stopped = True
-            return base + 2
-
-        if self.eat_meth is None:
+        eat_meth = self._meth_map.get(chunk_start)
+        if eat_meth is None:
             raise MalformedHeadersError(f'Malformed headers, invalid section start: {chunk_start}')
 
+        self.eat_meth = eat_meth
+        return eat_meth(chunk, base + 1)
+
     def _eat_headers(self, chunk: bytes, base: int):
         expected: bytes = self.headers_end_expected
         if expected is not None:
-- 
2.43.0


From 02b8bc279d48aa2c4547ec902a62edccebd4fe7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:21 +0000
Subject: [PATCH 04/60] fix: multipart headers end is found wherever a read
 ended

---
 ombott/request_pkg/multipart.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/ombott/request_pkg/multipart.py b/ombott/request_pkg/multipart.py
index b3de99a..42f9914 100644
--- a/ombott/request_pkg/multipart.py
+++ b/ombott/request_pkg/multipart.py
@@ -60,7 +60,7 @@ CRLFx2 = CRLF * 2
 CRLFx2_LEN = len(CRLFx2)
 
 
-end_headers_patt = re.compile(br'(\r\n\r\n)|(\r(\n\r?)?)$')
+end_headers_patt = re.compile(br'(\r\n\r\n)|(\r(\n\r?)?)\Z')
 
 
 class HeadersEaeter:
@@ -123,7 +123,7 @@ class HeadersEaeter:
         expected: bytes = self.headers_end_expected
         if expected is not None:
             expected_len = len(expected)
-            chunk_start = chunk[base:expected_len]
+            chunk_start = chunk[base: base + expected_len]
             if chunk_start == expected:
                 self.headers_end_expected = None
                 return base + expected_len - CRLFx2_LEN
@@ -136,14 +136,7 @@ class HeadersEaeter:
                     return
                 self.headers_end_expected = None
 
-            if expected == LF:  # we saw CRLFCR
-                invalid_sequence = CR + chunk_start[0:1]
-                # NOTE we don not catch all CRLF-malformed errors, but only obvious ones
-                # to stop doing useless work
-                raise MalformedHeadersError(f'Malformed headers, found invalid sequence: {invalid_sequence}')
-            else:
-                assert expected_len >= 2  # (CR)LFCRLF or (CRLF)CRLF
-                self.headers_end_expected = None
+            self.headers_end_expected = None
 
         assert self.headers_end_expected is None
 
-- 
2.43.0


From 1be50abcc034fde715123b58deb3f06fecc28a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:21 +0000
Subject: [PATCH 05/60] fix: ignore the multipart epilogue in later reads too

---
 ombott/request_pkg/multipart.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ombott/request_pkg/multipart.py b/ombott/request_pkg/multipart.py
index 42f9914..92d9479 100644
--- a/ombott/request_pkg/multipart.py
+++ b/ombott/request_pkg/multipart.py
@@ -173,8 +173,8 @@ class BodyMarkuper:
         self.stopped = False
 
     def iter_markup(self, chunk: bytes) -> Iterable[Tuple[str, Tuple[int, int]]]:
-        if self.stopped:
-            raise StopMarkupException()
+        if self.stopped:  # epilogue
+            return
         cur_meth = self.cur_meth
         abs_start_section = self.abs_start_section
         start_next_sec = 0
-- 
2.43.0


From 577e7b821232100379b051809fde374e8f77d4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:15 +0000
Subject: [PATCH 06/60] fix: check the multipart body start once, not at the
 start of every read

---
 ombott/request_pkg/multipart.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ombott/request_pkg/multipart.py b/ombott/request_pkg/multipart.py
index 92d9479..22b84bb 100644
--- a/ombott/request_pkg/multipart.py
+++ b/ombott/request_pkg/multipart.py
@@ -164,6 +164,7 @@ class BodyMarkuper:
         self.tlen = len(token)
         self.token = token
         self.trest = self.trest_len = None
+        self.started = False
         self.mt = MatchTail(token)
         self.abspos = 0
         self.abs_start_section = 0
@@ -223,11 +224,12 @@ class BodyMarkuper:
         self.abs_start_section = abs_start_section
 
     def _eat_start_boundary(self, chunk: bytes, base: int):
-        if self.trest is None:
+        if not self.started:
             chunk_start = chunk[base: base + 1]
             if not chunk_start:
                 return
 
+            self.started = True
             if chunk_start == CR:
                 return self._eat_data(chunk, base)
 
-- 
2.43.0


From d88522938a419a5af5595f4cc3dc706e5ef59280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:15 +0000
Subject: [PATCH 07/60] fix: parse multipart part headers with quoted
 parameters exactly

---
 ombott/request_pkg/multipart.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/ombott/request_pkg/multipart.py b/ombott/request_pkg/multipart.py
index 22b84bb..3acaa22 100644
--- a/ombott/request_pkg/multipart.py
+++ b/ombott/request_pkg/multipart.py
@@ -390,11 +390,12 @@ class Header(SimpleNamespace):
     name: str
     value: str
     options: Dict[str, str]
+    raw: str
 
 
 class FieldStorage:
 
-    _patt = re.compile('(.+?)(=(.+?))?(;|$)')
+    _patt = re.compile(r';\s*([^\s=;]+)\s*(?:=\s*(?:"([^"]*)"|([^;]*)))?')
 
     name: str
     value: Optional[str]
@@ -422,7 +423,7 @@ class FieldStorage:
             raise BodySizeError('Max in-memory read limit exceed')
         src.seek(start)
         headers_raw = src.read(sz).decode()
-        for header_raw in headers_raw.splitlines():
+        for header_raw in headers_raw.split('\r\n'):
             header = self.parse_header(header_raw)
             self.headers[header.name] = header
             if header.name == 'Content-Disposition':
@@ -452,16 +453,17 @@ class FieldStorage:
     @classmethod
     def parse_header(cls, s: str):
         htype, rest = s.split(':', 1)
-        opt_iter = cls._patt.finditer(rest)
-        hvalue = next(opt_iter).group(1).strip()
+        rest = rest.strip()
+        hvalue = rest.split(';', 1)[0].strip()
         dct = {}
-        for it in opt_iter:
-            k = it.group(1).strip()
-            v = it.group(3)
-            if v is not None:
-                v = v.strip('"')
+        for it in cls._patt.finditer(rest, rest.find(';') if ';' in rest else len(rest)):
+            k, quoted, v = it.groups()
+            if quoted is not None:
+                v = quoted
+            elif v is not None:
+                v = v.strip().strip('"')
             dct[k.lower()] = v
-        return Header(name=htype, value=hvalue, options=dct)
+        return Header(name=htype.strip().title(), value=hvalue, options=dct, raw=rest)
 
     @classmethod
     def iter_items(cls, src: BytesIO, markup: list, max_read: int):
-- 
2.43.0


From 5fd0a942261d7a02489541ed1d3a7e725a494c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:15 +0000
Subject: [PATCH 08/60] fix: accept quoted multipart boundaries and any case of
 the content type

---
 ombott/request_pkg/body_mixin.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index 7e5aa12..fe7d435 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -15,7 +15,10 @@ from .helpers import (
 from .errors import RequestError, BodyParsingError, BodySizeError
 
 
-MULTIPART_BOUNDARY_PATT = re.compile(r'^multipart/.+?boundary=(.+?)(;|$)')
+MULTIPART_BOUNDARY_PATT = re.compile(
+    r'^multipart/.+?boundary=(?:"([^"]+)"|(.+?)\s*(?:;|$))',
+    re.IGNORECASE
+)
 
 
 def _iter_body(read, buff_size, *, content_length):
@@ -246,7 +249,7 @@ class BodyMixin:
         markup = None
         mp = MULTIPART_BOUNDARY_PATT.match(self.environ.get('CONTENT_TYPE', ''))
         if mp is not None:
-            markup = MultipartMarkup(mp.group(1))
+            markup = MultipartMarkup(mp.group(1) or mp.group(2))
         try:
             body = _body_read(
                 self.environ['wsgi.input'].read,
-- 
2.43.0


From 25c0d592d176d8fd9d9e336ffa2624f1ac806d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:15 +0000
Subject: [PATCH 09/60] fix: uploads carry their headers as text and may have
 an empty filename

---
 ombott/request_pkg/body_mixin.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index fe7d435..61cb691 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -204,10 +204,11 @@ class BodyMixin:
             raise markup.error
         listified = set()
         for item in FieldStorage.iter_items(body, markup.markups, self.config.max_memfile_size):
-            if item.filename:
+            if item.file is not None:
                 it = FileUpload(
                     item.file, item.name,
-                    item.filename, item.headers
+                    item.filename,
+                    {name: header.raw for name, header in item.headers.items()}
                 )
                 dct = files
             else:
-- 
2.43.0


From f3679c3b184fede9bb8b12faf9452eb6fa3357c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:15 +0000
Subject: [PATCH 10/60] fix: keep text fields and uploads of the same name
 apart

---
 ombott/request_pkg/body_mixin.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index 61cb691..51d6742 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -202,7 +202,6 @@ class BodyMixin:
             raise BodyParsingError()
         elif markup.error is not None:
             raise markup.error
-        listified = set()
         for item in FieldStorage.iter_items(body, markup.markups, self.config.max_memfile_size):
             if item.file is not None:
                 it = FileUpload(
@@ -214,18 +213,19 @@ class BodyMixin:
             else:
                 it = item.value
                 dct = forms
-            key = item.name
-
-            if key in post:
-                el = post[key]
-                if key not in listified:
-                    el = post[key] = dct[key] = [el]
-                    listified.add(key)
-                el.append(it)
-            else:
-                post[key] = dct[key] = it
+            self._collect(post, item.name, it)
+            self._collect(dct, item.name, it)
         return post
 
+    @staticmethod
+    def _collect(dct, key, value):
+        if key not in dct:
+            dct[key] = value
+        elif isinstance(dct[key], list):
+            dct[key].append(value)
+        else:
+            dct[key] = [dct[key], value]
+
     @cache_in('environ[ ombott.request.forms ]', read_only=True)
     def forms(self):
         """ Form values parsed from an `url-encoded` or `multipart/form-data`
-- 
2.43.0


From 9c91e1ccc1ffb6c06b0e726b175a45650e2e74b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:15 +0000
Subject: [PATCH 11/60] fix: BytesIOProxy.read(0) returns nothing

---
 ombott/request_pkg/multipart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ombott/request_pkg/multipart.py b/ombott/request_pkg/multipart.py
index 3acaa22..9b679c6 100644
--- a/ombott/request_pkg/multipart.py
+++ b/ombott/request_pkg/multipart.py
@@ -361,7 +361,7 @@ class BytesIOProxy:
         max_sz = self._end - self._pos
         if max_sz <= 0:
             return b''
-        if sz is not None and sz > 0:
+        if sz is not None and sz >= 0:
             sz = min(sz, max_sz)
         else:
             sz = max_sz
-- 
2.43.0


From 33ae5e8abdb973d840638ce458c410b3cfb20fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:15 +0000
Subject: [PATCH 12/60] fix: malformed multipart part headers and text are
 client errors

---
 ombott/request_pkg/multipart.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/ombott/request_pkg/multipart.py b/ombott/request_pkg/multipart.py
index 9b679c6..93570a5 100644
--- a/ombott/request_pkg/multipart.py
+++ b/ombott/request_pkg/multipart.py
@@ -422,18 +422,18 @@ class FieldStorage:
         if has_read > max_read:
             raise BodySizeError('Max in-memory read limit exceed')
         src.seek(start)
-        headers_raw = src.read(sz).decode()
+        headers_raw = self._decode(src.read(sz))
         for header_raw in headers_raw.split('\r\n'):
             header = self.parse_header(header_raw)
             self.headers[header.name] = header
             if header.name == 'Content-Disposition':
-                self.name = header.options['name']
+                self.name = header.options.get('name')
                 self.filename = header.options.get('filename')
             elif header.name == 'Content-Type':
                 self.ctype = header.value
 
         if self.name is None:
-            raise BodyParsingError(f'Noname field found while parsing multipart/formdata body: {header_raw}')
+            raise BodyParsingError(f'Noname field found while parsing multipart/formdata body: {headers_raw}')
 
         if self.filename is not None:
             self.file = BytesIOProxy(src, *data_section)
@@ -445,14 +445,23 @@ class FieldStorage:
                 if has_read > max_read:
                     raise BodySizeError('Max in-memory read limit exceed')
                 src.seek(start)
-                self.value = src.read(sz).decode()
+                self.value = self._decode(src.read(sz))
             else:
                 self.value = ''
         return has_read
 
+    @staticmethod
+    def _decode(raw: bytes) -> str:
+        try:
+            return raw.decode()
+        except UnicodeDecodeError as err:
+            raise BodyParsingError(f'Malformed multipart/formdata, invalid text: {err}')
+
     @classmethod
     def parse_header(cls, s: str):
-        htype, rest = s.split(':', 1)
+        htype, colon, rest = s.partition(':')
+        if not colon:
+            raise MalformedHeadersError(f'Malformed header: {s}')
         rest = rest.strip()
         hvalue = rest.split(';', 1)[0].strip()
         dct = {}
-- 
2.43.0


From 12818078f6909d690b8a919c6237480c87d6e31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:15 +0000
Subject: [PATCH 13/60] fix: errors found while reading a form are client
 errors

---
 ombott/request_pkg/body_mixin.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index 51d6742..aa840bd 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -174,8 +174,14 @@ class BodyMixin:
             instances of :class:`BytesIOProxy` (file uploads).
 
         """
+        try:
+            return self._parse_post()
+        except RequestError as err:
+            self._raise(err, RequestError)
+
+    def _parse_post(self):
         env = self.environ
-        files = env['ombott.request.files'] = self._forms_factory()
+        files = self._forms_factory()
         post = self._forms_factory()
 
         # We default to application/x-www-form-urlencoded for everything that
@@ -190,9 +196,10 @@ class BodyMixin:
                     setitem=post.__setitem__
                 )
             env['ombott.request.forms'] = post
+            env['ombott.request.files'] = files
             return post
 
-        forms = env['ombott.request.forms'] = self._forms_factory()
+        forms = self._forms_factory()
 
         body = self.body
         markup: MultipartMarkup = body.ombott_markup
@@ -215,6 +222,8 @@ class BodyMixin:
                 dct = forms
             self._collect(post, item.name, it)
             self._collect(dct, item.name, it)
+        env['ombott.request.forms'] = forms
+        env['ombott.request.files'] = files
         return post
 
     @staticmethod
@@ -249,9 +258,9 @@ class BodyMixin:
     def _body(self):
         markup = None
         mp = MULTIPART_BOUNDARY_PATT.match(self.environ.get('CONTENT_TYPE', ''))
-        if mp is not None:
-            markup = MultipartMarkup(mp.group(1) or mp.group(2))
         try:
+            if mp is not None:
+                markup = MultipartMarkup(mp.group(1) or mp.group(2))
             body = _body_read(
                 self.environ['wsgi.input'].read,
                 self.config.max_memfile_size,
-- 
2.43.0


From 1eb22abb9232cf70a05f36f05f83ecfbb821577d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:15 +0000
Subject: [PATCH 14/60] fix: malformed JSON bodies are client errors

---
 ombott/request_pkg/body_mixin.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index aa840bd..0abe1a4 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -164,9 +164,20 @@ class BodyMixin:
             b = self._get_body_string()
             if not b:
                 return None
-            return json_mod.loads(b)
+            try:
+                return json_mod.loads(b)
+            except (ValueError, RecursionError) as err:
+                self._raise(BodyParsingError(f'Malformed json: {err}'), RequestError)
         return None
 
+    def _json_object(self):
+        ret = self.json
+        if ret is None:
+            return {}
+        if not isinstance(ret, dict):
+            raise RequestError('json object is expected')
+        return ret
+
     @cache_in('environ[ ombott.request.post ]', read_only=True)
     def POST(self):
         """ The values of :attr:`forms` and :attr:`files` combined into a single
@@ -189,7 +200,7 @@ class BodyMixin:
         ctype = self.content_type
         if not ctype.startswith('multipart/'):
             if ctype.startswith('application/json'):
-                post.update(self.json)
+                post.update(self._json_object())
             else:
                 parse_qsl(
                     touni(self._get_body_string(), 'latin1'),
-- 
2.43.0


From ee16e4a219f8096e38710a6d6aaf9380f4263e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:15 +0000
Subject: [PATCH 15/60] fix: read the whole text of a chunked form despite a
 Content-Length

---
 ombott/request_pkg/body_mixin.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index 0abe1a4..34f728f 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -295,7 +295,8 @@ class BodyMixin:
         self._body.seek(0)
         read = self._body.read
         max_content_length = self.config.max_memfile_size
-        content_length = self.content_length
+        # the transfer coding overrides the declared length
+        content_length = -1 if self.chunked else self.content_length
 
         if content_length > max_content_length:
             raise self._raise(BodySizeError(), RequestError)
-- 
2.43.0


From 1903c5023076c074ec383c98537d81c05a5f5169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:54 +0000
Subject: [PATCH 16/60] fix: a CR in the request path never stands for a
 wildcard

---
 ombott/router/radidict.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ombott/router/radidict.py b/ombott/router/radidict.py
index 863bc77..fb0284c 100644
--- a/ombott/router/radidict.py
+++ b/ombott/router/radidict.py
@@ -397,7 +397,8 @@ class RadiDict:
                 else:
                     c0 = route[i]
                     for ic, c in enumerate(idx):
-                        if c == c0:
+                        # the token in the path itself is just a symbol
+                        if c == c0 and c != TOKEN:
                             kidx = ic; break  # found!
 
                 if kidx is None:  # not found
-- 
2.43.0


From 939d7339ee11e25874e07ff4df2178b99f9eb9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:54 +0000
Subject: [PATCH 17/60] fix: bind wildcards under the names of the rule a
 handler was registered under

---
 ombott/router/radirouter.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index 8905534..9bf080d 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -6,13 +6,15 @@ from .parser import Parser
 
 
 class RouteMethod:
-    __slots__ = ('route', 'name', 'handler', 'meta')
+    __slots__ = ('route', 'name', 'handler', 'meta', 'params')
 
-    def __init__(self, route, name, handler, meta=None):
+    def __init__(self, route, name, handler, meta=None, params=None):
         self.route = route
         self.name = name
         self.handler = handler
         self.meta = meta
+        #: wildcard names of the rule the handler was registered under
+        self.params = route.params if params is None else params
 
     def remove(self):
         self.route.remove_method(self.name)
@@ -110,14 +112,14 @@ class Route:
 
         return ''.join(ret)
 
-    def _set_methods(self, methods, handler, meta=None):
+    def _set_methods(self, methods, handler, meta=None, params=None):
         for meth in methods:
-            self._methods[meth] = RouteMethod(self, meth, handler, meta)
+            self._methods[meth] = RouteMethod(self, meth, handler, meta, params)
 
-    def set_method(self, method, handler, meta=None):
+    def set_method(self, method, handler, meta=None, params=None):
         if isinstance(method, str):
             method = [method]
-        self._set_methods(method, handler, meta)
+        self._set_methods(method, handler, meta, params)
 
     def _raise_if_registered(self, method, candidate):
         registered = set(self._methods) & set(method)
@@ -133,11 +135,11 @@ class Route:
                 f'but there are already registered: `{registered_fullnames}`'
             )
 
-    def add_method(self, method, handler, meta=None):
+    def add_method(self, method, handler, meta=None, params=None):
         if isinstance(method, str):
             method = [method]
         self._raise_if_registered(method, handler)
-        self._set_methods(method, handler, meta)
+        self._set_methods(method, handler, meta, params)
 
     def remove_method(self, method):
         if isinstance(method, str):
@@ -316,7 +318,7 @@ class RadiRouter:
             return None, [404, 'Not Found', extra]
         try:
             meth = route[methods]
-            params = route.make_params_dict(extra['param_keys'], extra['param_values'])
+            params = route.make_params_dict(meth.params, extra['param_values'])
             return [meth, params, extra['hooks']], None
         except RouteMethodError:
             allowed = ",".join(sorted(route.methods))
@@ -373,6 +375,7 @@ class RadiRouter:
 
     def _add(self, rule, methods, handler, name=None, *, meta=None, overwrite=False):
         route = Route(rule)
+        params = route.params
         route_ = self._match(route.pattern, route.filters)
         if route_:
             route = route_
@@ -381,9 +384,9 @@ class RadiRouter:
             self.routes[route.pattern] = route
 
         if overwrite:
-            route.set_method(methods, handler, meta)
+            route.set_method(methods, handler, meta, params)
         else:
-            route.add_method(methods, handler, meta)
+            route.add_method(methods, handler, meta, params)
 
         if name:
             registered = self.named_routes.get(name)
-- 
2.43.0


From 5cea564a1935a52306c3b8bb57ec996518a36f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:11 +0000
Subject: [PATCH 18/60] fix: route methods are case-insensitive at every entry
 point

---
 ombott/router/radirouter.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index 9bf080d..93ba1ae 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -112,14 +112,18 @@ class Route:
 
         return ''.join(ret)
 
+    @staticmethod
+    def _norm_methods(methods):
+        if isinstance(methods, str):
+            methods = [methods]
+        return [m.upper() for m in methods]
+
     def _set_methods(self, methods, handler, meta=None, params=None):
         for meth in methods:
             self._methods[meth] = RouteMethod(self, meth, handler, meta, params)
 
     def set_method(self, method, handler, meta=None, params=None):
-        if isinstance(method, str):
-            method = [method]
-        self._set_methods(method, handler, meta, params)
+        self._set_methods(self._norm_methods(method), handler, meta, params)
 
     def _raise_if_registered(self, method, candidate):
         registered = set(self._methods) & set(method)
@@ -136,14 +140,12 @@ class Route:
             )
 
     def add_method(self, method, handler, meta=None, params=None):
-        if isinstance(method, str):
-            method = [method]
+        method = self._norm_methods(method)
         self._raise_if_registered(method, handler)
         self._set_methods(method, handler, meta, params)
 
     def remove_method(self, method):
-        if isinstance(method, str):
-            method = [method]
+        method = self._norm_methods(method)
         [self._methods.pop(m, None) for m in method]
 
     @property
@@ -151,9 +153,7 @@ class Route:
         return dict(self._methods)
 
     def __getitem__(self, method):
-        if isinstance(method, str):
-            method = [method]
-        for name in method:
+        for name in self._norm_methods(method):
             meth = self._methods.get(name)
             if meth:
                 return meth
-- 
2.43.0


From cf2190d4ae3eb0af7f54cae67a8c4865e3495255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:28 +0000
Subject: [PATCH 19/60] fix: a path that looks like an absolute URL does not
 break the 404 page

---
 ombott/request_pkg/props_mixin.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ombott/request_pkg/props_mixin.py b/ombott/request_pkg/props_mixin.py
index cce942c..bbbff5a 100644
--- a/ombott/request_pkg/props_mixin.py
+++ b/ombott/request_pkg/props_mixin.py
@@ -2,7 +2,6 @@ import base64
 from http.cookies import SimpleCookie
 from urllib.parse import (
     quote as urlquote,
-    urljoin,
     SplitResult as UrlSplitResult
 )
 
@@ -103,7 +102,7 @@ class PropsMixin:
     def fullpath(self):
         """ Request path including :attr:`script_name` (if present). """
         appname = self._env_get(self.config.app_name_header, '/')
-        return urljoin(self.script_name, self.path[len(appname):].lstrip('/'))
+        return self.script_name + self.path[len(appname):].lstrip('/')
 
     @property
     def query_string(self):
-- 
2.43.0


From a9520bb40a723d82a97d3e1fd16e3c16720b5d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:51 +0000
Subject: [PATCH 20/60] fix: the text of a following wildcard is not part of a
 path filter

---
 ombott/router/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ombott/router/parser.py b/ombott/router/parser.py
index 26efea7..bc7943c 100644
--- a/ombott/router/parser.py
+++ b/ombott/router/parser.py
@@ -45,7 +45,7 @@ class Parser:
                 if filter == 'path':
                     tail = S.rest()
                     tmp = re.match(fr'[^{param_tokens}]+', tail)
-                    token_pos = tmp.end() if tmp else len(tail)
+                    token_pos = tmp.end() if tmp else 0
                     filter_args = tail[: token_pos]
             # static logic
             else:
-- 
2.43.0


From ab269d970bda1ce4f0041f0640779232114b8440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:12 +0000
Subject: [PATCH 21/60] fix: removing routes keeps the hooks of their prefixes

---
 ombott/router/radidict.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/ombott/router/radidict.py b/ombott/router/radidict.py
index fb0284c..d8ace86 100644
--- a/ombott/router/radidict.py
+++ b/ombott/router/radidict.py
@@ -345,14 +345,13 @@ class RadiDict:
         elif mismatch:
             return
 
-        if hooks_only and node[DATA] is not None:
-            node[HOOKS] = None
-            return
-
         stack.reverse()
         assert node is stack[0]
-        node[DATA] = None
-        node[PARAMS] = []
+        if hooks_only:
+            node[HOOKS] = None
+        else:
+            node[DATA] = None
+            node[PARAMS] = []
         key0_to_del = None
         for node in stack:
             if key0_to_del:
@@ -364,7 +363,7 @@ class RadiDict:
                 node[IDX] = node[IDX].replace(key0_to_del, '')
                 del node[OFFSET + kidx]
                 self._try_merge(node)
-            if not (node[DATA] or node[IDX]):
+            if not (node[DATA] or node[HOOKS] or node[IDX]):
                 key0_to_del = node[KEY][0]
             else:
                 break
-- 
2.43.0


From 31edef9bfbe6af476a25ef06af38d7d2ee649338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:12 +0000
Subject: [PATCH 22/60] fix: a removed route is not found by any of its names

---
 ombott/router/radirouter.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index 93ba1ae..e28390a 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -278,24 +278,21 @@ class RadiRouter:
             else:
                 route_pattern = route.pattern
         elif name is not None:
-            route = self.named_routes.pop(name)
+            route = self.named_routes[name]
             route_pattern = route.pattern
 
         self.radidict.remove(route_pattern)
-        if route:
-            del self.routes[route.pattern]
+        if route is None and route_pattern.endswith('*'):
+            route_pattern = route_pattern[:-1]
+            patterns_to_del = [
+                pattern for pattern in self.routes
+                if pattern.startswith(route_pattern)
+            ]
+            [self.routes.pop(pattern) for pattern in patterns_to_del]
+            self._remove_named_routers(set(patterns_to_del))
         else:
-            if route_pattern.endswith('*'):
-                route_pattern = route_pattern[:-1]
-                patterns_to_del = [
-                    pattern for pattern in self.routes
-                    if pattern.startswith(route_pattern)
-                ]
-                [self.routes.pop(pattern) for pattern in patterns_to_del]
-                self._remove_named_routers(set(patterns_to_del))
-            else:
-                self.routes.pop(route_pattern, None)
-                self._remove_named_routers({route_pattern})
+            self.routes.pop(route_pattern, None)
+            self._remove_named_routers({route_pattern})
 
     def resolve(self, path, methods=None):
         """
-- 
2.43.0


From 7b9046d94d117bafd134177eab18f8f812a713e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:12 +0000
Subject: [PATCH 23/60] fix: a registration refused for its name leaves no
 route behind

---
 ombott/router/radirouter.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index e28390a..6d4b284 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -376,7 +376,14 @@ class RadiRouter:
         route_ = self._match(route.pattern, route.filters)
         if route_:
             route = route_
-        else:
+
+        # nothing must be registered if the name is already used
+        if name and not overwrite:
+            registered = self.named_routes.get(name)
+            if registered and registered is not route:
+                raise RouteBuildError(f'Can`t register route, name `{name}` is already used')
+
+        if not route_:
             self.radidict.add(route.pattern, route, route.params_signature())
             self.routes[route.pattern] = route
 
@@ -386,9 +393,6 @@ class RadiRouter:
             route.add_method(methods, handler, meta, params)
 
         if name:
-            registered = self.named_routes.get(name)
-            if not overwrite and registered and registered is not route:
-                raise RouteBuildError(f'Can`t register route, name `{name}` is already used')
             self.named_routes[name] = route
         return route
 
-- 
2.43.0


From 1abb27011111e13e8e4dfbd94737b9d532659182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:12 +0000
Subject: [PATCH 24/60] fix: a hook does not replace the hook of a rule with
 other filters

---
 ombott/router/radirouter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index 6d4b284..2f75d5a 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -331,7 +331,7 @@ class RadiRouter:
 
     def add_hook(self, rule, *args, **kwargs):
         route_pattern, params, filters, _, _ = self.parse_rule(rule)
-        route_hooks = self._match(route_pattern = route_pattern, get_hooks = True)
+        route_hooks = self._match(filters = filters, route_pattern = route_pattern, get_hooks = True)
         new_route_hooks = self.hook_installer(route_hooks, *args, **kwargs)
         if new_route_hooks is not None and new_route_hooks is not route_hooks:
             params = {name: [False, filter] for name, filter in zip(params, filters)}
-- 
2.43.0


From f2ad16fa5114955281e576f82bcb46d8fab19262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:14 +0000
Subject: [PATCH 25/60] fix: Route.url checks the parameters against the whole
 URL

---
 ombott/router/radirouter.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index 2f75d5a..ec28934 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -62,7 +62,8 @@ class Route:
         self.pattern_out = pattern_out
         self.filters_out = filters_out
 
-    def url(self, *args, **kw):
+    def url(*args, **kw):
+        self, *args = args  # a wildcard may be named `self`
 
         params = self.params
         if not params:
@@ -74,6 +75,8 @@ class Route:
         pattern_out = self.pattern_out
 
         ret = []
+        ret_len = 0
+        checks = []
         pidx = 0
         args_idx = 0
         cidx = 0
@@ -88,6 +91,7 @@ class Route:
                 end += clen
                 clen = 0
                 ret.append(pattern_out[cidx:end])
+                ret_len += end - cidx
             cidx = end + 1
 
             pname = params[pidx]
@@ -103,14 +107,19 @@ class Route:
             if f_out:
                 prt = f_out(prt)
             if f_in:
-                assert f_in(prt)[1]  # `pos` must be > 0 if match
+                checks.append([f_in, ret_len])
             ret.append(prt)
+            ret_len += len(prt)
 
         if clen:
             end = cidx + clen
             ret.append(pattern_out[cidx:end])
 
-        return ''.join(ret)
+        url = ''.join(ret)
+        # a filter may look at the text that follows its wildcard
+        for f_in, pos in checks:
+            assert f_in(url[pos:])[0] is not None
+        return url
 
     @staticmethod
     def _norm_methods(methods):
-- 
2.43.0


From 7a0955852d396b74d24b604a44f11f2d79398960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:14 +0000
Subject: [PATCH 26/60] fix: a wildcard may be named self

---
 ombott/ombott.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index bb71528..c8ba89c 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -253,7 +253,7 @@ class Ombott:
                 hook = hooks[HookTypes.SIMPLE]
                 if hook:
                     hook(path[:1 + route_pos])
-        return route(**kwargs)
+        return route.handler(**kwargs)
 
     def _handle(self, environ):
         response = self.response
-- 
2.43.0


From faff11476653c1db5cb37b759e44c62894d14fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:14 +0000
Subject: [PATCH 27/60] fix: float wildcards are written without an exponent

---
 ombott/router/filter_factory.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ombott/router/filter_factory.py b/ombott/router/filter_factory.py
index ac25aa1..4bd816b 100644
--- a/ombott/router/filter_factory.py
+++ b/ombott/router/filter_factory.py
@@ -1,4 +1,5 @@
 import re
+from decimal import Decimal
 
 
 class _RouteFilterExhaust:
@@ -26,12 +27,19 @@ def _rex(conf):
     return conf, f_in, None
 
 
+def _float_out(x):
+    x = float(x)
+    if x in (float('inf'), float('-inf')):  # the wildcard's text was too large for a float
+        return ('-' if x < 0 else '') + '1' + '0' * 400
+    return format(Decimal(repr(x)), 'f')  # without an exponent
+
+
 class FilterFactory:
     filters = {
         're':    lambda conf: (conf, None, None),
         'rex':   _rex,
         'int':   lambda conf: (r'-?\d+', int, lambda x: str(int(x))),
-        'float': lambda conf: (r'-?\d+(\.\d+)?', float, lambda x: str(float(x))),
+        'float': lambda conf: (r'-?\d+(\.\d+)?', float, _float_out),
         'path':  lambda conf: (f'.+(?={re.escape(conf)})' if conf else '.+$', None, None)
     }
     _filter_cache = {}
-- 
2.43.0


From d6445c56a356dd44a2bf6a4be5f94784d4928e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:55 +0000
Subject: [PATCH 28/60] fix: no 1xx response carries a body

---
 ombott/ombott.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index c8ba89c..a68eccc 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -386,7 +386,8 @@ class Ombott:
             out = self._cast(self._handle(environ))
             # rfc2616 section 4.3
             if (
-                response._status_code in {100, 101, 204, 304}
+                100 <= response._status_code < 200
+                or response._status_code in {204, 304}
                 or environ['REQUEST_METHOD'] == 'HEAD'
             ):
                 close = getattr(out, 'close', None)
-- 
2.43.0


From 5a0c5d6b41f75a09d20391a4d6d9424de8577dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:55 +0000
Subject: [PATCH 29/60] fix: text that cannot be encoded fails before the
 response is started

---
 ombott/ombott.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index a68eccc..f23dafa 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -362,7 +362,16 @@ class Ombott:
             elif isinstance(first, bytes):
                 new_iter = itertools.chain([first], iout)
             elif isinstance(first, str):
-                new_iter = (it.encode(response.charset) for it in itertools.chain([first], iout))
+                charset = response.charset
+                try:
+                    first = first.encode(charset)
+                except (UnicodeError, LookupError) as err500:
+                    close = getattr(out, 'close', None)
+                    if close:
+                        close()
+                    out = HTTPError(500, 'Unhandled exception', err500, format_exc())
+                    continue                                     # -----------------^
+                new_iter = itertools.chain([first], (it.encode(charset) for it in iout))
             else:
                 out = HTTPError(500, f'Unsupported response type: {type(first)}')
                 continue                                         # -----------------^
-- 
2.43.0


From 3517cc1a8541dc6135c7f246f76135f3826b60b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:55 +0000
Subject: [PATCH 30/60] fix: close the body of a response that could not be
 started

---
 ombott/ombott.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index f23dafa..0319165 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -391,6 +391,7 @@ class Ombott:
                 environ[config.app_name_header] = '/' + app_name
                 environ["PATH_INFO"] = '/' + app_name + environ["PATH_INFO"]
 
+        out = None
         try:
             out = self._cast(self._handle(environ))
             # rfc2616 section 4.3
@@ -399,10 +400,10 @@ class Ombott:
                 or response._status_code in {204, 304}
                 or environ['REQUEST_METHOD'] == 'HEAD'
             ):
-                close = getattr(out, 'close', None)
+                body, out = out, []
+                close = getattr(body, 'close', None)
                 if close:
                     close()
-                out = []
             start_response(response._status_line, response.headerlist)
             return out
         except (KeyboardInterrupt, SystemExit, MemoryError):
@@ -411,6 +412,14 @@ class Ombott:
             if not self.config.catchall:
                 raise
 
+            # the body will not be sent
+            close = getattr(out, 'close', None)
+            if close:
+                try:
+                    close()
+                except Exception:
+                    environ['wsgi.errors'].write(format_exc())
+
             err = '<h1>Critical error while processing request: %s</h1>' \
                   % html_escape(environ.get('PATH_INFO', '/'))
             if self.config.debug:
-- 
2.43.0


From 3e447594aab39f8f595a62b2939ce94f00e8d4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:55 +0000
Subject: [PATCH 31/60] fix: the critical error page survives any exception and
 has no body for HEAD

---
 ombott/common_helpers.py |  8 ++++++++
 ombott/ombott.py         | 11 ++++++-----
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/ombott/common_helpers.py b/ombott/common_helpers.py
index 1c4c400..859d0eb 100644
--- a/ombott/common_helpers.py
+++ b/ombott/common_helpers.py
@@ -69,6 +69,14 @@ def html_escape(string):
                  .replace('"', '&quot;').replace("'", '&#039;')
 
 
+# ------------------[ repr for error pages ] -------------------
+def safe_repr(obj):
+    try:
+        return repr(obj)
+    except Exception:
+        return '<unprintable %s object>' % type(obj).__name__
+
+
 # ------------------[ thread safe props] -------------------
 def ts_props(*props, store_name=None):
     def wrapper(cls):
diff --git a/ombott/ombott.py b/ombott/ombott.py
index 0319165..45be16e 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -7,7 +7,7 @@ from urllib.parse import urljoin
 
 from .common_helpers import (
     html_escape,
-    tob,
+    safe_repr,
     cached_property,
     WSGIFileWrapper,
     SimpleConfig,
@@ -223,7 +223,7 @@ class Ombott:
         if self.request.is_json_requested:
             ret = json.dumps(dict(
                 body = res.body,
-                exception = repr(res.exception),
+                exception = safe_repr(res.exception),
                 traceback = res.traceback
             ))
             self.response.headers['Content-Type'] = 'application/json'
@@ -426,12 +426,13 @@ class Ombott:
                 err += (
                     '<h2>Error:</h2>\n<pre>\n%s\n</pre>\n'
                     '<h2>Traceback:</h2>\n<pre>\n%s\n</pre>\n'
-                    % (html_escape(repr(_e)), html_escape(format_exc()))
+                    % (html_escape(safe_repr(_e)), html_escape(format_exc()))
                 )
-            environ['wsgi.errors'].write(err)
+            err = err.encode('utf8', 'backslashreplace')
+            environ['wsgi.errors'].write(err.decode('utf8'))
             headers = [('Content-Type', 'text/html; charset=UTF-8')]
             start_response('500 INTERNAL SERVER ERROR', headers, sys.exc_info())
-            return [tob(err)]
+            return [err] if environ.get('REQUEST_METHOD') != 'HEAD' else []
 
     def __call__(self, environ, start_response):
         return self.wsgi(environ, start_response)
-- 
2.43.0


From 791842f7d52fbad42b380bb3c8f69f71ff36a0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:55 +0000
Subject: [PATCH 32/60] fix: malformed status lines are refused

---
 ombott/ombott.py   | 3 ++-
 ombott/response.py | 9 ++++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index 45be16e..0711188 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -404,7 +404,8 @@ class Ombott:
                 close = getattr(body, 'close', None)
                 if close:
                     close()
-            start_response(response._status_line, response.headerlist)
+            status_line = response._status_line.encode('utf8').decode('latin1')
+            start_response(status_line, response.headerlist)
             return out
         except (KeyboardInterrupt, SystemExit, MemoryError):
             raise
diff --git a/ombott/response.py b/ombott/response.py
index 1edafac..9e26c13 100644
--- a/ombott/response.py
+++ b/ombott/response.py
@@ -1,5 +1,6 @@
 from datetime import date as datedate, datetime, timedelta
 import email.utils
+import re
 import http.client as httplib
 from http.cookies import SimpleCookie
 import calendar
@@ -36,6 +37,10 @@ _response_slots = (
 )
 
 
+#: three digits and a reason phrase without control characters
+_status_line_re = re.compile(r'[0-9]{3} [^\x00-\x1f\x7f]+\Z')
+
+
 class BaseResponse:
     """ Storage class for a response body as well as headers and cookies.
 
@@ -137,7 +142,9 @@ class BaseResponse:
             code, status = status, _HTTP_STATUS_LINES.get(status)
         elif ' ' in status:
             status = status.strip()
-            code = int(status.split()[0])
+            if not _status_line_re.match(status):
+                raise ValueError('Malformed status line: %r' % status)
+            code = int(status[:3])
         else:
             raise ValueError('String status line without a reason phrase.')
         if not 100 <= code <= 999:
-- 
2.43.0


From bd0d07c41831e5d479792f659f074209daa632e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:55 +0000
Subject: [PATCH 33/60] fix: malformed header names are refused

---
 ombott/common_helpers.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/ombott/common_helpers.py b/ombott/common_helpers.py
index 859d0eb..82beb66 100644
--- a/ombott/common_helpers.py
+++ b/ombott/common_helpers.py
@@ -3,6 +3,7 @@ import types
 import threading
 import base64
 import pickle
+import re
 import hmac
 import hashlib
 import email.utils
@@ -236,6 +237,15 @@ class SimpleConfig(metaclass=_MetaSimpleConfig):
 
 
 # ------------------[ headers parsing] -------------------
+_header_name_re = re.compile(r"[!#$%&'*+.^_`|~0-9A-Za-z-]+\Z")
+
+
+def _hkey(key):
+    if not isinstance(key, str) or not _header_name_re.match(key):
+        raise ValueError("Malformed header name: %r" % (key,))
+    return key
+
+
 def _hval(value):
     if not (value is None or isinstance(value, (str, int, float, bool))):
         raise TypeError(f"Header value must be type of (str, int, float, bool, None), got: {type(value)}")
@@ -274,7 +284,7 @@ class HeaderDict(DictMixin):
         return self._ts.dict[key]
 
     def __setitem__(self, key, value):
-        self._ts.dict[key] = _hval(value)
+        self._ts.dict[_hkey(key)] = _hval(value)
 
     def copy(self):
         ret = self.__class__()
@@ -282,12 +292,12 @@ class HeaderDict(DictMixin):
         return ret
 
     def setdefault(self, key, value):
-        return self._ts.dict.setdefault(key, _hval(value) if not isinstance(value, list) else value)
+        return self._ts.dict.setdefault(_hkey(key), _hval(value) if not isinstance(value, list) else value)
 
     def append(self, key, value):
         d = self._ts.dict
         value = _hval(value)
-        v = d.get(key)
+        v = d.get(_hkey(key))
         if v is None:
             d[key] = value
         elif isinstance(v, list):
-- 
2.43.0


From 3a5fcf0d88a678fd2b1d8f828473106b0d9dcfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:35 +0000
Subject: [PATCH 34/60] fix: HTTP dates do not depend on the local time zone

---
 ombott/common_helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ombott/common_helpers.py b/ombott/common_helpers.py
index 82beb66..7e4c2f1 100644
--- a/ombott/common_helpers.py
+++ b/ombott/common_helpers.py
@@ -7,7 +7,7 @@ import re
 import hmac
 import hashlib
 import email.utils
-import time
+import calendar
 from . import errors
 
 
@@ -15,7 +15,7 @@ def parse_date(ims):
     """ Parse rfc1123, rfc850 and asctime timestamps and return UTC epoch. """
     try:
         ts = email.utils.parsedate_tz(ims)
-        return time.mktime(ts[:8] + (0,)) - (ts[9] or 0) - time.timezone
+        return calendar.timegm(ts[:8] + (0,)) - (ts[9] or 0)
     except (TypeError, ValueError, IndexError, OverflowError):
         return None
 
-- 
2.43.0


From 41373428004b0bca2ffe8ada8882020185ce865b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:35 +0000
Subject: [PATCH 35/60] fix: an empty If-Modified-Since header is ignored

---
 ombott/static_stream.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ombott/static_stream.py b/ombott/static_stream.py
index a797da1..705a499 100644
--- a/ombott/static_stream.py
+++ b/ombott/static_stream.py
@@ -102,8 +102,7 @@ def static_file(filename, root, mimetype='auto', download=False, charset='UTF-8'
     headers['Last-Modified'] = email.utils.formatdate(stats.st_mtime, usegmt=True)
 
     ims = env_get('HTTP_IF_MODIFIED_SINCE')
-    if ims:
-        ims = parse_date(ims.split(";")[0].strip())
+    ims = parse_date(ims.split(";")[0].strip()) if ims else None
     if ims is not None and ims >= int(stats.st_mtime):
         headers['Date'] = email.utils.formatdate(time.time(), usegmt=True)
         return HTTPResponse(status=304, **headers)
-- 
2.43.0


From 937ae8c88ee020ac2acf9f70f3a2d36ec7de5b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:35 +0000
Subject: [PATCH 36/60] fix: read Range headers as RFC 7233 writes them

---
 ombott/static_stream.py | 42 ++++++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/ombott/static_stream.py b/ombott/static_stream.py
index 705a499..18e8cf4 100644
--- a/ombott/static_stream.py
+++ b/ombott/static_stream.py
@@ -1,4 +1,5 @@
 import os
+import re
 import mimetypes
 import time
 
@@ -9,35 +10,38 @@ from .response import HTTPResponse, HTTPError
 from .ombott import Globals
 
 
+_range_re = re.compile(r'([0-9]*)-([0-9]*)\Z')
+
+
 def get_first_range(header, maxlen=0):
     ''' Return (start, end) of first range in ranges parsed from a HTTP Range header.
         Skip unsatisfiable ranges. The end index is non-inclusive.
 
     '''
-    try:
-        ranges_str = header.split('bytes=', 1)[1]
-    except IndexError:
+    unit, _, ranges_str = header.partition('=')
+    if unit.lower() != 'bytes':
         # no-perix/unsupported-units
         return
 
-    first_range = ranges_str.split(',', 1)[0]
-    try:
-        start, end = first_range.split('-')
-    except ValueError:
-        # too-many/not-enougth values to unpack (invalid range)
+    # the list may have empty elements and white space around its commas
+    first_range = next(filter(None, (r.strip(' \t') for r in ranges_str.split(','))), '')
+    match = _range_re.match(first_range)
+    if not match:
         return
+    start, end = match.groups()
+    # positions may have any number of digits: those beyond the file are all the same
+    start, end = (d and int(d if len(d) < 20 else d.lstrip('0')[:20] or 0) for d in (start, end))
 
-    try:
-        if not start:  # bytes=-100    -> last 100 bytes
-            start, end = max(0, maxlen - int(end)), maxlen
-        elif not end:  # bytes=100-    -> all but the first 99 bytes
-            start, end = int(start), maxlen
-        else:          # bytes=100-200 -> bytes 100-200 (inclusive)
-            start, end = int(start), min(int(end) + 1, maxlen)
-        if 0 <= start < end <= maxlen:
-            return start, end
-    except ValueError:
-        pass
+    if start == '' and end == '':
+        return
+    if start == '':  # bytes=-100    -> last 100 bytes
+        start, end = max(0, maxlen - end), maxlen
+    elif end == '':  # bytes=100-    -> all but the first 99 bytes
+        end = maxlen
+    else:            # bytes=100-200 -> bytes 100-200 (inclusive)
+        end = min(end + 1, maxlen)
+    if 0 <= start < end <= maxlen:
+        return start, end
 
 
 def _file_iter_range(fp, offset, bytes_len, maxread=1024 * 1024):
-- 
2.43.0


From 608d453c60485ce5dac2d3d29b5e1cb4f0316fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:23 +0000
Subject: [PATCH 37/60] fix: a cookie with an empty value is not absent

---
 ombott/request_pkg/props_mixin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ombott/request_pkg/props_mixin.py b/ombott/request_pkg/props_mixin.py
index bbbff5a..9f599e9 100644
--- a/ombott/request_pkg/props_mixin.py
+++ b/ombott/request_pkg/props_mixin.py
@@ -61,10 +61,10 @@ class PropsMixin:
             :meth:`BaseResponse.set_cookie`). If anything goes wrong (missing
             cookie or wrong signature), return a default value. """
         value = self.cookies.get(key)
-        if secret and value:
+        if secret and value is not None:
             dec = cookie_decode(value, secret)  # (key, value) tuple or None
             return dec[1] if dec and dec[0] == key else default
-        return value or default
+        return default if value is None else value
 
     @cache_in('environ[ ombott.request.params ]', read_only=True)
     def params(self):
-- 
2.43.0


From 6f860422336dd2e89d395e108971981ab270c546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:18 +0000
Subject: [PATCH 38/60] fix: no cookie of a request hides another one

---
 ombott/request_pkg/helpers.py     | 16 ++++++++++++++++
 ombott/request_pkg/props_mixin.py |  5 ++---
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/ombott/request_pkg/helpers.py b/ombott/request_pkg/helpers.py
index acadd65..4cbfc6f 100644
--- a/ombott/request_pkg/helpers.py
+++ b/ombott/request_pkg/helpers.py
@@ -2,6 +2,7 @@ import os
 import re
 
 from collections.abc import MutableMapping as DictMixin
+from http.cookies import SimpleCookie
 from unicodedata import normalize
 from urllib.parse import unquote as urlunquote
 
@@ -125,6 +126,21 @@ def parse_qsl(qs, *, append: callable = None, setitem: callable = None):
     return container
 
 
+_cookie_re = re.compile(r'([^=;]*)(?:=[ \t]*("(?:[^\\"]|\\.)*"(?=[ \t]*(?:;|\Z))|[^;]*))?[ \t]*(?:;|\Z)')
+
+
+def parse_cookies(header):
+    """ Yield the (name, value) pairs of a Cookie header. Unlike `SimpleCookie.load`
+        this knows no reserved names and does not give up at the first odd cookie.
+    """
+    decode = SimpleCookie().value_decode
+    for match in _cookie_re.finditer(header):
+        name, value = match.groups()
+        name = name.strip(' \t')
+        if name and value is not None:
+            yield name, decode(value.strip(' \t'))[0]
+
+
 class FormsDict(dict):
     ''' This :class:`dict` subclass is used to store request form data.
         Additionally to the normal dict-like item access methods,
diff --git a/ombott/request_pkg/props_mixin.py b/ombott/request_pkg/props_mixin.py
index 9f599e9..5fbf1b2 100644
--- a/ombott/request_pkg/props_mixin.py
+++ b/ombott/request_pkg/props_mixin.py
@@ -1,5 +1,4 @@
 import base64
-from http.cookies import SimpleCookie
 from urllib.parse import (
     quote as urlquote,
     SplitResult as UrlSplitResult
@@ -11,6 +10,7 @@ from ..common_helpers import (
 )
 from .helpers import (
     cache_in,
+    parse_cookies,
     WSGIHeaderDict,
 )
 
@@ -52,8 +52,7 @@ class PropsMixin:
     def cookies(self):
         """ Cookies parsed into a :class:`CookieDict`. Signed cookies are NOT
             decoded. Use :meth:`get_cookie` if you expect signed cookies. """
-        cookies = SimpleCookie(self._env_get('HTTP_COOKIE', '')).values()
-        return self._cookie_factory((c.key, c.value) for c in cookies)
+        return self._cookie_factory(parse_cookies(self._env_get('HTTP_COOKIE', '')))
 
     def get_cookie(self, key, default=None, secret=None):
         """ Return the content of a cookie. To read a `Signed Cookie`, the
-- 
2.43.0


From 2f4e6960bc378002871ac6143e99dffffdd6ae7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:18 +0000
Subject: [PATCH 39/60] fix: setting a cookie again replaces its attributes too

---
 ombott/response.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ombott/response.py b/ombott/response.py
index 9e26c13..6e1f28b 100644
--- a/ombott/response.py
+++ b/ombott/response.py
@@ -235,7 +235,8 @@ class BaseResponse:
         if len(value) > 4096:
             raise ValueError('Cookie value to long.')
 
-        self._cookies[name] = value
+        jar = SimpleCookie()
+        jar[name] = value
 
         for key, value in options.items():
             if key == 'max_age':
@@ -243,7 +244,8 @@ class BaseResponse:
                     value = value.seconds + value.days * 24 * 3600
             if key == 'expires':
                 value = http_date(value)
-            self._cookies[name][key.replace('_', '-')] = value
+            jar[name][key.replace('_', '-')] = value
+        self._cookies[name] = jar[name]
 
     def delete_cookie(self, key, **kwargs):
         ''' Delete a cookie. Be sure to use the same `domain` and `path`
-- 
2.43.0


From 8068c85e3bcd399b424d08739c881e874c6c9209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:18 +0000
Subject: [PATCH 40/60] fix: non-ASCII text in cookies survives the round trip

---
 ombott/request_pkg/props_mixin.py | 2 +-
 ombott/response.py                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ombott/request_pkg/props_mixin.py b/ombott/request_pkg/props_mixin.py
index 5fbf1b2..3046182 100644
--- a/ombott/request_pkg/props_mixin.py
+++ b/ombott/request_pkg/props_mixin.py
@@ -59,7 +59,7 @@ class PropsMixin:
             `secret` must match the one used to create the cookie (see
             :meth:`BaseResponse.set_cookie`). If anything goes wrong (missing
             cookie or wrong signature), return a default value. """
-        value = self.cookies.get(key)
+        value = self.cookies.getunicode(key, self.cookies.get(key))
         if secret and value is not None:
             dec = cookie_decode(value, secret)  # (key, value) tuple or None
             return dec[1] if dec and dec[0] == key else default
diff --git a/ombott/response.py b/ombott/response.py
index 6e1f28b..a815bb5 100644
--- a/ombott/response.py
+++ b/ombott/response.py
@@ -236,7 +236,7 @@ class BaseResponse:
             raise ValueError('Cookie value to long.')
 
         jar = SimpleCookie()
-        jar[name] = value
+        jar[name] = value.encode('utf8').decode('latin1')
 
         for key, value in options.items():
             if key == 'max_age':
-- 
2.43.0


From 1470a529dcc6d29c54709d753cd2e2d029e9baee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:32 +0000
Subject: [PATCH 41/60] fix: a copied response has all cookies of the original

---
 ombott/response.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ombott/response.py b/ombott/response.py
index a815bb5..50c3810 100644
--- a/ombott/response.py
+++ b/ombott/response.py
@@ -103,7 +103,7 @@ class BaseResponse:
         copy = cls(status = self.status, headers = self.headers.copy().dict)
         if self._cookies:
             copy._cookies = SimpleCookie()
-            copy._cookies.load(self._cookies.output(header=''))
+            copy._cookies.load({name: c.copy() for name, c in self._cookies.items()})
         return copy
 
     def __iter__(self):
-- 
2.43.0


From 61330ca7195d4aaf0b77f7c18c774cb8d09e599d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:20 +0000
Subject: [PATCH 42/60] fix: properties of one request or response object are
 not shared by all objects of its class

---
 ombott/common_helpers.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ombott/common_helpers.py b/ombott/common_helpers.py
index 7e4c2f1..d12606d 100644
--- a/ombott/common_helpers.py
+++ b/ombott/common_helpers.py
@@ -81,11 +81,9 @@ def safe_repr(obj):
 # ------------------[ thread safe props] -------------------
 def ts_props(*props, store_name=None):
     def wrapper(cls):
-        local_store = None
         cls_init = cls.__init__
 
         def init_wrapper(self, *a, **kw):
-            nonlocal local_store
             local_store = getattr(self, store_name, None)
             if local_store is None:
                 local_store = threading.local()
@@ -95,13 +93,13 @@ def ts_props(*props, store_name=None):
 
         def make_prop(k):
             def fget(s):
-                return getattr(local_store, k)
+                return getattr(getattr(s, store_name), k)
 
             def fset(s, v):
-                return setattr(local_store, k, v)
+                return setattr(getattr(s, store_name), k, v)
 
             def fdel(s):
-                return delattr(local_store, k)
+                return delattr(getattr(s, store_name), k)
             doc = 'Local property: %s' % k
             return property(fget, fset, fdel, doc)
 
-- 
2.43.0


From 03c258d5f7362c7db287a3b54b4586da239f4f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:40 +0000
Subject: [PATCH 43/60] fix: header names are equal up to letter case

---
 ombott/common_helpers.py | 34 ++++++++++++++++++++++++++--------
 ombott/response.py       |  4 ++--
 2 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/ombott/common_helpers.py b/ombott/common_helpers.py
index d12606d..d8cf7fd 100644
--- a/ombott/common_helpers.py
+++ b/ombott/common_helpers.py
@@ -253,7 +253,7 @@ def _hval(value):
     return value
 
 
-@proxy('dict', 'keys pop popitem values items get'.split())
+@proxy('dict', 'keys popitem values items'.split())
 class HeaderDict(DictMixin):
     __slots__ = ('_ts',)
 
@@ -272,17 +272,33 @@ class HeaderDict(DictMixin):
     def __iter__(self):
         return self._ts.dict.__iter__()
 
+    def _stored(self, key):
+        """ The name under which the header `key` is stored: names are case-insensitive. """
+        d = self._ts.dict
+        if key not in d and isinstance(key, str):
+            lower = key.lower()
+            for name in d:
+                if name.lower() == lower:
+                    return name
+        return key
+
     def __contains__(self, key):
-        return key in self._ts.dict
+        return self._stored(key) in self._ts.dict
 
     def __delitem__(self, key):
-        del self._ts.dict[key]
+        del self._ts.dict[self._stored(key)]
 
     def __getitem__(self, key):
-        return self._ts.dict[key]
+        return self._ts.dict[self._stored(key)]
 
     def __setitem__(self, key, value):
-        self._ts.dict[_hkey(key)] = _hval(value)
+        self._ts.dict[self._stored(_hkey(key))] = _hval(value)
+
+    def get(self, key, *default):
+        return self._ts.dict.get(self._stored(key), *default)
+
+    def pop(self, key, *default):
+        return self._ts.dict.pop(self._stored(key), *default)
 
     def copy(self):
         ret = self.__class__()
@@ -290,12 +306,13 @@ class HeaderDict(DictMixin):
         return ret
 
     def setdefault(self, key, value):
-        return self._ts.dict.setdefault(_hkey(key), _hval(value) if not isinstance(value, list) else value)
+        return self._ts.dict.setdefault(self._stored(_hkey(key)), _hval(value) if not isinstance(value, list) else value)
 
     def append(self, key, value):
         d = self._ts.dict
         value = _hval(value)
-        v = d.get(_hkey(key))
+        key = self._stored(_hkey(key))
+        v = d.get(key)
         if v is None:
             d[key] = value
         elif isinstance(v, list):
@@ -312,7 +329,8 @@ class HeaderDict(DictMixin):
             self._ts.dict.clear()
 
     def update(self, d):
-        self._ts.dict.update(d)
+        for key, value in dict(d).items():
+            self._ts.dict[self._stored(key)] = value
 
     def __repr__(self):
         return f'<{self.__class__.__name__}: {self.dict}>'
diff --git a/ombott/response.py b/ombott/response.py
index 50c3810..0f579ec 100644
--- a/ombott/response.py
+++ b/ombott/response.py
@@ -158,10 +158,10 @@ class BaseResponse:
         headers = self._headers.items()
         bad_headers = self.bad_headers.get(self._status_code)
         if bad_headers:
-            headers = (h for h in headers if h[0] not in bad_headers)
+            headers = (h for h in headers if h[0].title() not in bad_headers)
             need_ctype = False
         else:
-            need_ctype = 'Content-Type' not in self._headers
+            need_ctype = not any(name.title() == 'Content-Type' for name in self._headers)
         out = [
             (name, val.encode('utf8').decode('latin1'))
             for (name, vals) in headers
-- 
2.43.0


From 16a126c46e5c68ea17862285f111ea6e9a37d209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:40 +0000
Subject: [PATCH 44/60] fix: check every value of a header list given to
 setdefault

---
 ombott/common_helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ombott/common_helpers.py b/ombott/common_helpers.py
index d8cf7fd..e668fff 100644
--- a/ombott/common_helpers.py
+++ b/ombott/common_helpers.py
@@ -306,7 +306,8 @@ class HeaderDict(DictMixin):
         return ret
 
     def setdefault(self, key, value):
-        return self._ts.dict.setdefault(self._stored(_hkey(key)), _hval(value) if not isinstance(value, list) else value)
+        value = [_hval(v) for v in value] if isinstance(value, list) else _hval(value)
+        return self._ts.dict.setdefault(self._stored(_hkey(key)), value)
 
     def append(self, key, value):
         d = self._ts.dict
-- 
2.43.0


From a41650f64d74d9bd2e8fe2333dc7d508236436ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:40 +0000
Subject: [PATCH 45/60] fix: underscores in keyword headers are dashes

---
 ombott/response.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ombott/response.py b/ombott/response.py
index 0f579ec..3c0108e 100644
--- a/ombott/response.py
+++ b/ombott/response.py
@@ -94,7 +94,7 @@ class BaseResponse:
 
         if more_headers:
             for name, value in more_headers.items():
-                self.headers.append(name, value)
+                self.headers.append(name.replace('_', '-'), value)
 
     def copy(self, cls=None):
         ''' Returns a copy of self. '''
-- 
2.43.0


From 59d7691c31444a1a545b9c2e8871dd0cd5e37089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:40 +0000
Subject: [PATCH 46/60] fix: a response with several values for one header can
 be copied

---
 ombott/response.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ombott/response.py b/ombott/response.py
index 3c0108e..ee13402 100644
--- a/ombott/response.py
+++ b/ombott/response.py
@@ -100,7 +100,8 @@ class BaseResponse:
         ''' Returns a copy of self. '''
         cls = cls or BaseResponse
         assert issubclass(cls, BaseResponse)
-        copy = cls(status = self.status, headers = self.headers.copy().dict)
+        copy = cls(status = self.status)
+        copy.headers.update(self.headers.copy().dict)
         if self._cookies:
             copy._cookies = SimpleCookie()
             copy._cookies.load({name: c.copy() for name, c in self._cookies.items()})
-- 
2.43.0


From d641f21f905db54593e7b8890b4741b59f88aca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:40 +0000
Subject: [PATCH 47/60] fix: no Content-Length for 204 responses

---
 ombott/response.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ombott/response.py b/ombott/response.py
index ee13402..a3b5668 100644
--- a/ombott/response.py
+++ b/ombott/response.py
@@ -67,7 +67,7 @@ class BaseResponse:
     # Header blacklist for specific response codes
     # (rfc2616 section 10.2.3 and 10.3.5)
     bad_headers = {
-        204: {'Content-Type'},
+        204: {'Content-Type', 'Content-Length'},
         304: {'Allow', 'Content-Encoding', 'Content-Language',
               'Content-Length', 'Content-Range', 'Content-Type',
               'Content-Md5', 'Last-Modified'}
-- 
2.43.0


From 6cba46904b1ac0d5212a8608ba2c800616a04bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:04 +0000
Subject: [PATCH 48/60] fix: the error page for an undecodable path belongs to
 that request

---
 ombott/ombott.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index 0711188..d612d6e 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -259,16 +259,18 @@ class Ombott:
         response = self.response
         request = self.request
 
+        # init thread
+        environ['ombott.app'] = self
+        request.__init__(environ)
+        response.__init__()
+
         path = environ['ombott.raw_path'] = environ['PATH_INFO']
         try:
             path = path.encode('latin1').decode('utf8')
         except UnicodeError:
             return HTTPError(400, 'Invalid path string. Expected UTF-8')
         environ['PATH_INFO'] = path
-        try:  # init thread
-            environ['ombott.app'] = self
-            request.__init__(environ)
-            response.__init__()
+        try:
             try:  # routing
                 self.emit('before_request')
                 route, kwargs, route_hooks = (None, None, None)
-- 
2.43.0


From 0a19a65e12a32a9a1f66bd0e9833118b54eaad05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:04 +0000
Subject: [PATCH 49/60] fix: escape status and body of an error page

---
 ombott/error_render.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ombott/error_render.py b/ombott/error_render.py
index a34f530..4d1726b 100644
--- a/ombott/error_render.py
+++ b/ombott/error_render.py
@@ -1,4 +1,5 @@
 from pathlib import Path
+from types import SimpleNamespace
 import html as sanitize_html
 
 html = Path(__file__).parent / 'error.html'
@@ -6,7 +7,8 @@ html = Path(__file__).parent / 'error.html'
 _html_lns = []
 
 def render(err_resp, url, debug):
-    clean_url = sanitize_html.escape(url)
+    escape = sanitize_html.escape
+    clean_url = escape(url)
     ex = traceback = '-] Forbidden [-'
     if debug:
         traceback = err_resp.traceback
@@ -16,9 +18,9 @@ def render(err_resp, url, debug):
         except:
             ex = f'<unprintable {type(ex)} object>'
     ctx = dict(
-        e = err_resp,
-        exception = ex,
-        traceback = traceback,
+        e = SimpleNamespace(status = escape(err_resp.status), body = escape(str(err_resp.body))),
+        exception = escape(str(ex)),
+        traceback = escape(str(traceback)),
         url = repr(clean_url)
     )
 
-- 
2.43.0


From efba3ee9d7de1e5ab841434e6d2a9aba5b8e89aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:04 +0000
Subject: [PATCH 50/60] fix: JSON error bodies are always JSON and contain no
 markup

---
 ombott/ombott.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index d612d6e..8ed7596 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -225,7 +225,9 @@ class Ombott:
                 body = res.body,
                 exception = safe_repr(res.exception),
                 traceback = res.traceback
-            ))
+            ), default = safe_repr)
+            # no markup, whatever the body is taken for
+            ret = ret.replace('&', '\\u0026').replace('<', '\\u003c').replace('>', '\\u003e')
             self.response.headers['Content-Type'] = 'application/json'
         else:
             ret = error_render.render(res, self.request.url, self.config.debug)
-- 
2.43.0


From 66a455902a4e7b03878e0b491a409166abb57be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:04 +0000
Subject: [PATCH 51/60] fix: the last-resort error page is JSON when JSON is
 requested

---
 ombott/ombott.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index 8ed7596..c01ddc5 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -435,7 +435,16 @@ class Ombott:
                 )
             err = err.encode('utf8', 'backslashreplace')
             environ['wsgi.errors'].write(err.decode('utf8'))
-            headers = [('Content-Type', 'text/html; charset=UTF-8')]
+            ctype = 'text/html; charset=UTF-8'
+            if environ.get('HTTP_ACCEPT', '').startswith('application/json'):
+                ctype = 'application/json'
+                debug = self.config.debug
+                err = json.dumps(dict(
+                    body = 'Critical error while processing request',
+                    exception = safe_repr(_e) if debug else None,
+                    traceback = format_exc() if debug else None
+                )).encode('utf8')
+            headers = [('Content-Type', ctype)]
             start_response('500 INTERNAL SERVER ERROR', headers, sys.exc_info())
             return [err] if environ.get('REQUEST_METHOD') != 'HEAD' else []
 
-- 
2.43.0


From 09a932fe802d3b421538f2801a0bd56414e8df17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:09 +0000
Subject: [PATCH 52/60] fix: applying a response does not share its header
 lists and cookies

---
 ombott/response.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/ombott/response.py b/ombott/response.py
index a3b5668..fdc3fb6 100644
--- a/ombott/response.py
+++ b/ombott/response.py
@@ -41,6 +41,16 @@ _response_slots = (
 _status_line_re = re.compile(r'[0-9]{3} [^\x00-\x1f\x7f]+\Z')
 
 
+def _copy_headers(headers):
+    return {k: (v[:] if isinstance(v, list) else v) for k, v in headers.items()}
+
+
+def _copy_cookies(cookies):
+    jar = SimpleCookie()
+    jar.load({name: c.copy() for name, c in cookies.items()})
+    return jar
+
+
 class BaseResponse:
     """ Storage class for a response body as well as headers and cookies.
 
@@ -101,10 +111,9 @@ class BaseResponse:
         cls = cls or BaseResponse
         assert issubclass(cls, BaseResponse)
         copy = cls(status = self.status)
-        copy.headers.update(self.headers.copy().dict)
+        copy._headers.update(_copy_headers(self._headers))
         if self._cookies:
-            copy._cookies = SimpleCookie()
-            copy._cookies.load({name: c.copy() for name, c in self._cookies.items()})
+            copy._cookies = _copy_cookies(self._cookies)
         return copy
 
     def __iter__(self):
@@ -285,9 +294,9 @@ class HTTPResponse(BaseResponse, OmbottException):
         response._status_code = self._status_code
         response._status_line = self._status_line
         response._headers.clear()
-        response._headers.update(self._headers)
+        response._headers.update(_copy_headers(self._headers))
         if self._cookies:
-            response._cookies = self._cookies
+            response._cookies = _copy_cookies(self._cookies)
         response.body = self.body
 
 
-- 
2.43.0


From d8a1ba52d86c445c87e357badab20ce55dd47f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:51 +0000
Subject: [PATCH 53/60] fix: every request gets a copy of the configured error

---
 ombott/request_pkg/request.py |  4 +++-
 ombott/response.py            | 17 +++++++++++++++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/ombott/request_pkg/request.py b/ombott/request_pkg/request.py
index a3afd28..d0b32c1 100644
--- a/ombott/request_pkg/request.py
+++ b/ombott/request_pkg/request.py
@@ -1,3 +1,4 @@
+from copy import copy
 
 from ..common_helpers import ts_props, SimpleConfig
 from ..mixable import Mixable
@@ -41,7 +42,8 @@ class BaseRequest:
         for err_cls in (err.__class__, except_class):
             out_err = errors_map.get(err_cls)
             if out_err:
-                err = out_err
+                # the configured error is used by all requests: raise a copy
+                err = copy(out_err)
                 break
         raise err
 
diff --git a/ombott/response.py b/ombott/response.py
index fdc3fb6..c20b144 100644
--- a/ombott/response.py
+++ b/ombott/response.py
@@ -299,6 +299,17 @@ class HTTPResponse(BaseResponse, OmbottException):
             response._cookies = _copy_cookies(self._cookies)
         response.body = self.body
 
+    def __copy__(self):
+        copy = self.__class__.__new__(self.__class__, *self.args)
+        BaseResponse.__init__(copy, self.body)
+        copy.__dict__.update(self.__dict__)
+        copy._status_code = self._status_code
+        copy._status_line = self._status_line
+        copy._headers.update(_copy_headers(self._headers))
+        if self._cookies:
+            copy._cookies = _copy_cookies(self._cookies)
+        return copy
+
 
 class HTTPError(HTTPResponse):
     __slots__ = ('exception', 'traceback')
@@ -310,6 +321,12 @@ class HTTPError(HTTPResponse):
         self.traceback = traceback
         super().__init__(body, status, **options)
 
+    def __copy__(self):
+        copy = super().__copy__()
+        copy.exception = self.exception
+        copy.traceback = self.traceback
+        return copy
+
 
 #: A dict to map HTTP status codes (e.g. 404) to phrases (e.g. 'Not Found')
 HTTP_CODES = httplib.responses
-- 
2.43.0


From 073a6348e69018efcef1c06c66b8f2395ec5148f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:51 +0000
Subject: [PATCH 54/60] fix: a response raised repeatedly does not collect the
 frames of all requests

---
 ombott/ombott.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index c01ddc5..5eaf82b 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -283,10 +283,13 @@ class Ombott:
                     environ['route.url_args'] = kwargs
                     environ['route.hooks'] = route_hooks
                 return self.handler(self, route, kwargs, route_hooks, error404_405)
+            except HTTPResponse as resp:
+                # may be raised again: it must not collect the frames of all requests
+                return resp.with_traceback(None)
             finally:
                 self.emit('after_request')
         except HTTPResponse as resp:
-            return resp
+            return resp.with_traceback(None)
         except (KeyboardInterrupt, SystemExit, MemoryError):
             raise
         except Exception as err500:
@@ -353,7 +356,7 @@ class Ombott:
             except StopIteration:
                 out = ''; continue                               # -----------------^
             except HTTPResponse as rs:
-                first = rs
+                first = rs.with_traceback(None)
             except (KeyboardInterrupt, SystemExit, MemoryError):
                 raise
             except Exception as err500:
-- 
2.43.0


From 238b91946197a9b8a3d2c4ad17019f7926f661c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:17 +0000
Subject: [PATCH 55/60] fix: redirect and static_file work on the request of
 the serving application

---
 ombott/ombott.py        | 23 +++++++++++++++++++++--
 ombott/static_stream.py |  4 ++--
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index 5eaf82b..7c8b030 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -1,6 +1,7 @@
 import sys
 import json
 import functools
+import threading
 from traceback import format_exc
 import itertools
 from urllib.parse import urljoin
@@ -388,6 +389,14 @@ class Ombott:
             return new_iter
 
     def wsgi(self, environ, start_response):
+        caller = getattr(_serving, 'app', None)
+        _serving.app = self
+        try:
+            return self._wsgi(environ, start_response)
+        finally:
+            _serving.app = caller
+
+    def _wsgi(self, environ, start_response):
         config: DefaultConfig = self.config
         response = self.response
 
@@ -470,8 +479,9 @@ def redirect(location, code=None):
         the HTTP protocol version.
 
     """
-    response = Globals.response
-    request = Globals.request
+    app = serving()
+    response = app.response
+    request = app.request
     url = location
     if not code:
         code = 303 if request.get('SERVER_PROTOCOL') == "HTTP/1.1" else 302
@@ -491,5 +501,14 @@ class Globals:
     error = app.error
 
 
+#: the application that serves a request in the current thread
+_serving = threading.local()
+
+
+def serving():
+    app = getattr(_serving, 'app', None)
+    return Globals if app is None else app
+
+
 def default_app():
     return Globals.app
diff --git a/ombott/static_stream.py b/ombott/static_stream.py
index 18e8cf4..0114c71 100644
--- a/ombott/static_stream.py
+++ b/ombott/static_stream.py
@@ -7,7 +7,7 @@ import email.utils
 
 from .common_helpers import parse_date
 from .response import HTTPResponse, HTTPError
-from .ombott import Globals
+from .ombott import serving
 
 
 _range_re = re.compile(r'([0-9]*)-([0-9]*)\Z')
@@ -73,7 +73,7 @@ def static_file(filename, root, mimetype='auto', download=False, charset='UTF-8'
         :param charset: The charset to use for files with a ``text/*``
             mime-type. (default: UTF-8)
     """
-    request = Globals.request
+    request = serving().request
     os_path = os.path
     root = os_path.abspath(root) + os.sep
     filename = os_path.abspath(os_path.join(root, filename.strip('/\\')))
-- 
2.43.0


From e8b23cfe1bc751a5d75a30ce6a0a186971491cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:05 +0000
Subject: [PATCH 56/60] fix: a copied request reads the headers of its own
 environ

---
 ombott/request_pkg/request.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ombott/request_pkg/request.py b/ombott/request_pkg/request.py
index d0b32c1..393b16d 100644
--- a/ombott/request_pkg/request.py
+++ b/ombott/request_pkg/request.py
@@ -79,7 +79,10 @@ class BaseRequest:
         NOTE: __listeners__ are not copied
 
         """
-        copy = self.__class__(self.environ.copy(), config = self.config)
+        env = self.environ.copy()
+        # the cached view of the headers reads the environ it was made for
+        env.pop('ombott.request.headers', None)
+        copy = self.__class__(env, config = self.config)
         return copy
 
     def get(self, value, default=None):
-- 
2.43.0


From dbd4d0739fc42c08d24711f26d8943639d833899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:41 +0000
Subject: [PATCH 57/60] fix: a HEAD request has no body however its method is
 written

---
 ombott/ombott.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index 7c8b030..368a822 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -414,7 +414,7 @@ class Ombott:
             if (
                 100 <= response._status_code < 200
                 or response._status_code in {204, 304}
-                or environ['REQUEST_METHOD'] == 'HEAD'
+                or environ['REQUEST_METHOD'].upper() == 'HEAD'
             ):
                 body, out = out, []
                 close = getattr(body, 'close', None)
@@ -458,7 +458,7 @@ class Ombott:
                 )).encode('utf8')
             headers = [('Content-Type', ctype)]
             start_response('500 INTERNAL SERVER ERROR', headers, sys.exc_info())
-            return [err] if environ.get('REQUEST_METHOD') != 'HEAD' else []
+            return [err] if environ.get('REQUEST_METHOD', '').upper() != 'HEAD' else []
 
     def __call__(self, environ, start_response):
         return self.wsgi(environ, start_response)
-- 
2.43.0


From cac1ff2d023894b738d6b221e12e31b6e34c074e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:31 +0000
Subject: [PATCH 58/60] fix: a filter selector is not taken for text of the
 path

---
 ombott/router/radidict.py   | 29 ++++++++++++++++++++---------
 ombott/router/radirouter.py |  4 ++--
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/ombott/router/radidict.py b/ombott/router/radidict.py
index d8ace86..a637747 100644
--- a/ombott/router/radidict.py
+++ b/ombott/router/radidict.py
@@ -21,6 +21,11 @@ DATA = 7
 OFFSET = 8
 
 
+def selector_key(selector):
+    """The text that stands for a filter selector in a pattern, no request path contains it"""
+    return f'\udc00{selector}\udc01'
+
+
 # mismatch types
 class MismatchType(IntEnum):
     WHOLE = 1
@@ -382,6 +387,8 @@ class RadiDict:
         do_look_back = False
         selector = None
         i = 0
+        shift = 0  # position of `route` in the whole path
+        start = 0  # length of the selector at the beginning of `route`
         while True:
             while i < L:
                 idx = pnode[IDX]
@@ -401,8 +408,8 @@ class RadiDict:
                             kidx = ic; break  # found!
 
                 if kidx is None:  # not found
-                    # maybe token or look_back
-                    if c == TOKEN:
+                    # maybe token or look_back, a selector is not to be consumed by the token
+                    if c == TOKEN and i >= start:
                         token_node = pnode[-1]
                         filter = token_node[FILTER]
                         if filter:
@@ -422,12 +429,15 @@ class RadiDict:
                             pnode = token_node
                             h = pnode[HOOKS]
                             if h:
-                                hooks.append([i, h])
+                                hooks.append([shift + i, h])
                             if selector is not None:
                                 look_back.append(
-                                    [route, pnode, i, L, params[:], hooks[:], False]
+                                    [route, pnode, i, L, params[:], hooks[:], shift, False]
                                 )
-                                route = str(selector) + route[i:]
+                                selector = selector_key(selector)
+                                route = selector + route[i:]
+                                start = len(selector)
+                                shift += i - start
                                 i = 0
                                 L = len(route)
                                 selector = None
@@ -438,9 +448,9 @@ class RadiDict:
                         break
 
                 # regular logic
-                if idx[-1] == TOKEN:
+                if idx[-1] == TOKEN and i >= start:
                     look_back.append(
-                        [route, pnode, i, L, params[:], hooks[:], True]
+                        [route, pnode, i, L, params[:], hooks[:], shift, True]
                     )
                 pnode = pnode[OFFSET + kidx]
                 key = pnode[KEY]
@@ -449,7 +459,7 @@ class RadiDict:
                     i = key_end
                     h = pnode[HOOKS]
                     if h:
-                        hooks.append([i, h])
+                        hooks.append([shift + i, h])
                 else:
                     break  # while
 
@@ -467,8 +477,9 @@ class RadiDict:
                 # this is partial match => try look_back
 
             if look_back:
-                route, pnode, i, L, params, hooks, look_type = look_back.pop()
+                route, pnode, i, L, params, hooks, shift, look_type = look_back.pop()
                 do_look_back = look_type
+                start = 0
             else:
                 return None if not allow_partial else (
                     None,
diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index ec28934..965f667 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -1,5 +1,5 @@
 from enum import IntEnum
-from .radidict import RadiDict, DATA, HOOKS
+from .radidict import RadiDict, DATA, HOOKS, selector_key
 from .filter_factory import FilterFactory
 from .errors import RouteBuildError, RouteMethodError
 from .parser import Parser
@@ -194,7 +194,7 @@ class Route:
         filters_out = []
         anon_counter = 0
         for part, param, filter, filter_args, filter_selector in cls.parser.iter_parse(rule):
-            filter_selector = filter_selector or ''
+            filter_selector = selector_key(filter_selector) if filter_selector else ''
             if not part:  # it is param or/and filter
                 part = '\r'
                 if not param:
-- 
2.43.0


From 2642fca81dd15ac4c9482197c645260dcd813b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:39 +0000
Subject: [PATCH 59/60] fix: a route with a trailing '*' is removed exactly by
 its name or object

The tree took the '*' for the prefix wildcard and dropped the branch, while
`routes` kept its entries: '/abc' was not found after removing '/a*' by name.
---
 ombott/router/radidict.py   | 5 +++--
 ombott/router/radirouter.py | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/ombott/router/radidict.py b/ombott/router/radidict.py
index a637747..7590442 100644
--- a/ombott/router/radidict.py
+++ b/ombott/router/radidict.py
@@ -327,10 +327,11 @@ class RadiDict:
             hooks = hooks, params = params, overwrite = overwrite
         )
 
-    def remove(self, route_pattern, hooks_only=False):
+    def remove(self, route_pattern, hooks_only=False, *, exact=False):
+        # `exact` - the trailing '*' is a part of the route, not a wildcard
 
         is_wildcard = False
-        if route_pattern and route_pattern[-1] == '*':
+        if not exact and route_pattern and route_pattern[-1] == '*':
             route_pattern = route_pattern[:-1]
             is_wildcard = True
             if hooks_only:
diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index 965f667..46c9164 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -290,7 +290,7 @@ class RadiRouter:
             route = self.named_routes[name]
             route_pattern = route.pattern
 
-        self.radidict.remove(route_pattern)
+        self.radidict.remove(route_pattern, exact = route is not None)
         if route is None and route_pattern.endswith('*'):
             route_pattern = route_pattern[:-1]
             patterns_to_del = [
-- 
2.43.0


From 0306ebb8c959ad3bd3e46bd28e1f3b5d78d316d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:11 +0000
Subject: [PATCH 60/60] fix: updating the headers checks names and values like
 the other setters

---
 ombott/common_helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ombott/common_helpers.py b/ombott/common_helpers.py
index e668fff..91243cf 100644
--- a/ombott/common_helpers.py
+++ b/ombott/common_helpers.py
@@ -331,7 +331,8 @@ class HeaderDict(DictMixin):
 
     def update(self, d):
         for key, value in dict(d).items():
-            self._ts.dict[self._stored(key)] = value
+            value = [_hval(v) for v in value] if isinstance(value, list) else _hval(value)
+            self._ts.dict[self._stored(_hkey(key))] = value
 
     def __repr__(self):
         return f'<{self.__class__.__name__}: {self.dict}>'
-- 
2.43.0

