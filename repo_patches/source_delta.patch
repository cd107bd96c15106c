From 7c368dd9f5db8f71153be72f3b047afc4d8a02b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:00 +0000
Subject: [PATCH 01/56] fix: make_line_iter fails on byte streams

The helper compared and joined with text literals only, so iterating any
WSGI input (bytes) by line raised a TypeError.
---
 verktyg/wsgi.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index 4b15444..4a4fe02 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -700,6 +700,16 @@ def make_line_iter(stream, limit=None, buffer_size=10 * 1024):
     """
     _iter = _make_chunk_iter(stream, limit, buffer_size)
 
+    first_item = next(_iter, '')
+    if not first_item:
+        return
+
+    _iter = chain((first_item,), _iter)
+    if isinstance(first_item, str):
+        empty, cr, lf = '', '\r', '\n'
+    else:
+        empty, cr, lf = b'', b'\r', b'\n'
+
     def _iter_basic_lines():
         buffer = []
         while 1:
@@ -709,20 +719,20 @@ def make_line_iter(stream, limit=None, buffer_size=10 * 1024):
             new_buf = []
             for item in chain(buffer, new_data.splitlines(True)):
                 new_buf.append(item)
-                if item and item[-1:] in '\r\n':
-                    yield ''.join(new_buf)
+                if item and item[-1:] in (cr, lf):
+                    yield empty.join(new_buf)
                     new_buf = []
             buffer = new_buf
         if buffer:
-            yield ''.join(buffer)
+            yield empty.join(buffer)
 
     # This hackery is necessary to merge 'foo\r' and '\n' into one item
     # of 'foo\r\n' if we were unlucky and we hit a chunk boundary.
-    previous = ''
+    previous = empty
     for item in _iter_basic_lines():
-        if item == '\n' and previous[-1:] == '\r':
+        if item == lf and previous[-1:] == cr:
             previous += item
-            item = ''
+            item = empty
         if previous:
             yield previous
         previous = item
-- 
2.43.0


From 9e1f586f08aadfc530b9085c8d940f7e22d80cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:00 +0000
Subject: [PATCH 02/56] fix: LimitedStream reads past its limit for negative
 sizes

readline(-1) and read(-2) were forwarded to the wrapped stream with a
negative size, i.e. unbounded, and consumed data behind the limit.
---
 verktyg/wsgi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index 4a4fe02..0e06efc 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -879,7 +879,7 @@ class LimitedStream(object):
         """
         if self._pos >= self.limit:
             return self.on_exhausted()
-        if size is None or size == -1:  # -1 is for consistence with file
+        if size is None or size < 0:  # -1 is for consistence with file
             size = self.limit
         to_read = min(self.limit - self._pos, size)
         try:
@@ -895,7 +895,7 @@ class LimitedStream(object):
         """Reads one line from the stream."""
         if self._pos >= self.limit:
             return self.on_exhausted()
-        if size is None:
+        if size is None or size < 0:  # -1 is for consistence with file
             size = self.limit - self._pos
         else:
             size = min(size, self.limit - self._pos)
-- 
2.43.0


From 5f215c851731c6fa503c60818f28b5e93150596e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:37 +0000
Subject: [PATCH 03/56] fix: make_chunk_iter misses separators that span two
 blocks

Every block was split on its own, so a separator of more than one
character that arrived in two pieces was not recognised.
---
 verktyg/wsgi.py | 27 +++++++--------------------
 1 file changed, 7 insertions(+), 20 deletions(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index 0e06efc..9fdea80 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -9,7 +9,6 @@
     :license:
         BSD, see LICENSE for more details.
 """
-import re
 import os
 from io import BytesIO
 import sys
@@ -763,29 +762,17 @@ def make_chunk_iter(stream, separator, limit=None, buffer_size=10 * 1024):
         return
 
     _iter = chain((first_item,), _iter)
-    if isinstance(first_item, str):
-        _split = re.compile(r'(%s)' % re.escape(separator)).split
-        _join = ''.join
-    else:
-        _split = re.compile(b'(' + re.escape(separator) + b')').split
-        _join = b''.join
-
-    buffer = []
+    # Data following the last separator is kept and searched again together
+    # with the next block, as the separator may extend over both of them.
+    buffer = first_item[:0]
     while 1:
         new_data = next(_iter, '')
         if not new_data:
             break
-        chunks = _split(new_data)
-        new_buf = []
-        for item in chain(buffer, chunks):
-            if item == separator:
-                yield _join(new_buf)
-                new_buf = []
-            else:
-                new_buf.append(item)
-        buffer = new_buf
-    if buffer:
-        yield _join(buffer)
+        chunks = (buffer + new_data).split(separator)
+        buffer = chunks.pop()
+        yield from chunks
+    yield buffer
 
 
 class LimitedStream(object):
-- 
2.43.0


From 5442f3f7b911b41a054aa88ff8f83a743760bdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:37 +0000
Subject: [PATCH 04/56] fix: concurrent first requests see an empty route table

The routes are sorted lazily by the first look-up.  A list is empty while
it is being sorted in place, so a second thread matching or building at
that moment found no routes and answered 404 (or failed to build).
---
 verktyg/routing.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index 2fe0b86..dd8ec6d 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -1239,9 +1239,15 @@ class URLMap(object):
         in the correct order after things changed.
         """
         if self._remap:
-            self._routes.sort(key=lambda x: x.match_compare_key())
-            for routes in self._routes_by_endpoint.values():
-                routes.sort(key=lambda x: x.build_compare_key())
+            # The tables are replaced rather than sorted in place: a list
+            # appears to be empty to other threads while it is being sorted.
+            self._routes = sorted(
+                self._routes, key=lambda x: x.match_compare_key()
+            )
+            self._routes_by_endpoint = {
+                endpoint: sorted(routes, key=lambda x: x.build_compare_key())
+                for endpoint, routes in self._routes_by_endpoint.items()
+            }
             self._remap = False
 
     def __repr__(self):
-- 
2.43.0


From 8a92f39976727ece625cac3e3c38364772d31890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:37 +0000
Subject: [PATCH 05/56] fix: routes added before a failing one are never sorted

If binding one of several routes failed, those already added were left
unsorted at the end of the table and matched with the wrong priority.
---
 verktyg/routing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index dd8ec6d..164cc1b 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -1102,11 +1102,11 @@ class URLMap(object):
         for factory in factories:
             for route in factory.get_routes(self):
                 route.bind(self)
+                self._remap = True
                 self._routes.append(route)
                 self._routes_by_endpoint.setdefault(
                     route.endpoint, []
                 ).append(route)
-        self._remap = True
 
     def bind(
         self, server_name, script_name=None, subdomain=None,
-- 
2.43.0


From 75042bbec72fd6cdab00ca79c04fbe105a4a56e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:37 +0000
Subject: [PATCH 06/56] fix: response cleanup runs twice if the client
 disconnects

Closing the application generator was forwarded by `yield from` to the
response iterator, which closes the response, which is then closed again
by the surrounding with statement.
---
 verktyg/application.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verktyg/application.py b/verktyg/application.py
index 385ff31..61257b8 100644
--- a/verktyg/application.py
+++ b/verktyg/application.py
@@ -89,7 +89,10 @@ class BaseApplication(object):
     def _wsgi_inner(self, wsgi_env, start_response):
         with self.request_class(wsgi_env) as request:
             with self._get_response(request) as response:
-                yield from response(wsgi_env, start_response)
+                # Not `yield from`: that would also close the iterator if the
+                # server closes us early, and run the cleanup a second time.
+                for chunk in response(wsgi_env, start_response):
+                    yield chunk
 
     def __call__(self, wsgi_env, start_response):
         wsgi_env['verktyg.application'] = self
-- 
2.43.0


From 6170739ac58c68a9a8290554323df337533826b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:37 +0000
Subject: [PATCH 07/56] fix: freezing a response drops the close method of its
 body

freeze() replaced the body iterable by a list without remembering its
close method, so the resources behind a streamed body were never released.
---
 verktyg/responses.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/verktyg/responses.py b/verktyg/responses.py
index e6e434b..7c21f73 100644
--- a/verktyg/responses.py
+++ b/verktyg/responses.py
@@ -490,7 +490,11 @@ class BaseResponse(object):
         """
         # we explicitly set the length to a list of the *encoded* response
         # iterator.  Even if the implicit sequence conversion is disabled.
+        # As in `make_sequence`, the iterable still has to be closed later.
+        close = getattr(self.response, 'close', None)
         self.response = list(self.iter_encoded())
+        if close is not None:
+            self.call_on_close(close)
         self.headers['Content-Length'] = str(sum(map(len, self.response)))
 
     def get_wsgi_headers(self, environ):
-- 
2.43.0


From dcef6c4334d196acd385e4824d8d87059d601223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:37 +0000
Subject: [PATCH 08/56] fix: ClosingIterator ignores close method of wrapped
 iterable

Only the iterator was asked for a close method.  If the iterable is not
its own iterator the close method required by WSGI was never called.
---
 verktyg/wsgi.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index 9fdea80..39ee032 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -582,7 +582,9 @@ class ClosingIterator(object):
             callbacks = [callbacks]
         else:
             callbacks = list(callbacks)
-        iterable_close = getattr(iterator, 'close', None)
+        iterable_close = getattr(iterable, 'close', None)
+        if iterable_close is None:
+            iterable_close = getattr(iterator, 'close', None)
         if iterable_close:
             callbacks.insert(0, iterable_close)
         self._callbacks = callbacks
-- 
2.43.0


From aa99ad742928968c58b273a58b3b7a1a0a2683d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:37 +0000
Subject: [PATCH 09/56] fix: Content-Length of text bodies counts characters,
 not bytes

For sequences containing text outside of ASCII the declared length was
smaller than the body that is sent, which truncates it or corrupts the
connection.
---
 verktyg/responses.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/verktyg/responses.py b/verktyg/responses.py
index 7c21f73..b89a650 100644
--- a/verktyg/responses.py
+++ b/verktyg/responses.py
@@ -344,7 +344,7 @@ class BaseResponse(object):
             self._ensure_sequence()
         except RuntimeError:
             return None
-        return sum(len(x) for x in self.response)
+        return sum(len(x) for x in self.iter_encoded())
 
     def _ensure_sequence(self, mutable=False):
         """This method can be called by methods that need a sequence.  If
@@ -564,14 +564,13 @@ class BaseResponse(object):
 
         # if we can determine the content length automatically, we
         # should try to do that.  But only if this does not involve
-        # flattening the iterator or encoding of unicode strings in
-        # the response.  We however should not do that if we have a 304
-        # response.
+        # flattening the iterator.  We however should not do that if we
+        # have a 304 response.
         if (
             self.automatically_set_content_length and
             self.is_sequence and content_length is None and status != 304
         ):
-            content_length = sum(len(x) for x in self.response)
+            content_length = sum(len(x) for x in self.iter_encoded())
             headers['Content-Length'] = str(content_length)
 
         return headers
-- 
2.43.0


From fffbf898c39b97eec3e9b21aee3bb553ccd9673c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:37 +0000
Subject: [PATCH 10/56] fix: run_wsgi_app hides errors passed to start_response

`with_traceback` was called without argument, so the caller saw a
TypeError instead of the error of the application.
---
 verktyg/test.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index f6d2fd1..b14103e 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -915,7 +915,7 @@ def run_wsgi_app(app, environ, buffered=False):
         if exc_info is not None:
             exc_type, exc_value, exc_traceback = exc_info
             if exc_value.__traceback__ is not exc_traceback:
-                raise exc_value.with_traceback()
+                raise exc_value.with_traceback(exc_traceback)
             raise exc_value
         response[:] = [status, headers]
         return buffer.append
-- 
2.43.0


From f7206ebd0a8f213bc58a7cedb7b6c6c3454487db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:37 +0000
Subject: [PATCH 11/56] fix: run_wsgi_app fails on lazily started empty
 responses

An application which starts its response on first iteration and yields no
body (every verktyg application for HEAD, 204 and 304) made the runner
raise StopIteration.  An application failing before it started its response
was not closed.
---
 verktyg/test.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index b14103e..5418bc9 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -938,8 +938,16 @@ def run_wsgi_app(app, environ, buffered=False):
     # a new `ClosingIterator` if we need to restore a `close` callable from the
     # original return value.
     else:
-        while not response:
-            buffer.append(next(app_iter))
+        if not response:
+            try:
+                for item in app_iter:
+                    buffer.append(item)
+                    if response:
+                        break
+            except BaseException:
+                if close_func is not None:
+                    close_func()
+                raise
         if buffer:
             app_iter = chain(buffer, app_iter)
         if close_func is not None and app_iter is not app_rv:
-- 
2.43.0


From 16d6f31dff898781ea35727ca998a9922235280e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:37 +0000
Subject: [PATCH 12/56] fix: run_wsgi_app drops written data when buffering

Data an application passed to the write callable was lost with
buffered=True.
---
 verktyg/test.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/verktyg/test.py b/verktyg/test.py
index 5418bc9..c7e71de 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -932,6 +932,8 @@ def run_wsgi_app(app, environ, buffered=False):
         finally:
             if close_func is not None:
                 close_func()
+        # data passed to `write` precedes everything that was yielded
+        app_iter = buffer + app_iter
 
     # otherwise we iterate the application iter until we have a response, chain
     # the already received data with the already collected data and wrap it in
-- 
2.43.0


From 464d37bb229c661dcc9c2be7c8e61f56e97820bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:37 +0000
Subject: [PATCH 13/56] fix: static file served with validators of another
 version

The file was opened first and then inspected by name.  If it was replaced
in between, the old content was sent with the length, entity tag and
modification date of the new one.
---
 verktyg/wsgi.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index 39ee032..55a35d7 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -409,11 +409,17 @@ class SharedDataMiddleware(object):
         return True
 
     def _opener(self, filename):
-        return lambda: (
-            open(filename, 'rb'),
-            datetime.utcfromtimestamp(os.path.getmtime(filename)),
-            int(os.path.getsize(filename))
-        )
+        def opener():
+            f = open(filename, 'rb')
+            try:
+                # ask the open file, the name may refer to another one by now
+                st = os.fstat(f.fileno())
+                mtime = datetime.utcfromtimestamp(st.st_mtime)
+            except BaseException:
+                f.close()
+                raise
+            return f, mtime, int(st.st_size)
+        return opener
 
     def get_file_loader(self, filename):
         return lambda x: (os.path.basename(filename), self._opener(filename))
-- 
2.43.0


From bc0e41c3454b697cafe57c8af66d9ff4f1e38133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:37 +0000
Subject: [PATCH 14/56] fix: entity tags of static files collide in local time

The UTC modification time was interpreted as local time, so that around a
daylight saving change two versions of a file got the same entity tag.
---
 verktyg/wsgi.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index 55a35d7..72665e3 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -16,7 +16,8 @@ import posixpath
 import mimetypes
 from itertools import chain
 from zlib import adler32
-from time import time, mktime
+from calendar import timegm
+from time import time
 from datetime import datetime
 from functools import partial
 from urllib.parse import quote as urlquote
@@ -465,7 +466,7 @@ class SharedDataMiddleware(object):
         if not isinstance(real_filename, bytes):
             real_filename = real_filename.encode(sys.getfilesystemencoding())
         return 'wzsdm-%d-%s-%s' % (
-            mktime(mtime.timetuple()),
+            timegm(mtime.timetuple()),
             file_size,
             adler32(real_filename) & 0xffffffff
         )
-- 
2.43.0


From cb923c4ed8351020d06f9fe853f7e98b51da3b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:37 +0000
Subject: [PATCH 15/56] fix: parse_cookie ignores the error handling asked for

A cookie with bytes that are not valid in the charset made every access to
the cookies of a request fail with a UnicodeDecodeError.
---
 verktyg/http/cookies.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verktyg/http/cookies.py b/verktyg/http/cookies.py
index 95bab83..be3dde9 100644
--- a/verktyg/http/cookies.py
+++ b/verktyg/http/cookies.py
@@ -188,8 +188,8 @@ def parse_cookie(header, charset='utf-8', errors='replace', cls=None):
 
     def _parse_pairs():
         for key, val in _cookie_parse_impl(header):
-            key = key.decode(charset)
-            val = val.decode(charset)
+            key = key.decode(charset, errors)
+            val = val.decode(charset, errors)
             yield key, val
 
     return cls(_parse_pairs())
-- 
2.43.0


From 0a8d86914350551ff8eb9f5d55a70a6332831c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:37 +0000
Subject: [PATCH 16/56] fix: cookie without value hides the one following it

The name of a cookie was allowed to contain semicolons, so that in
`foo; a=b` the cookie `a` was lost.
---
 verktyg/http/cookies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/http/cookies.py b/verktyg/http/cookies.py
index be3dde9..aede082 100644
--- a/verktyg/http/cookies.py
+++ b/verktyg/http/cookies.py
@@ -39,7 +39,7 @@ for _i in chain(range(32), range(127, 256)):
 _octal_re = re.compile(b'\\\\[0-3][0-7][0-7]')
 _quote_re = re.compile(b'[\\\\].')
 _cookie_re = re.compile(b"""(?x)
-    (?P<key>[^=]+)
+    (?P<key>[^=;]+)
     \s*=\s*
     (?P<val>
         "(?:[^\\\\"]|\\\\.)*" |
-- 
2.43.0


From 35b6a70bae418bccf847ccedd2d997bfe1a0f8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:37 +0000
Subject: [PATCH 17/56] fix: iterating over an uploaded file never ends

The end of a byte stream is b'', not ''.
---
 verktyg/http/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index c83f722..bbb45dc 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -946,7 +946,7 @@ class FileStorage(object):
         return getattr(self.stream, name)
 
     def __iter__(self):
-        return iter(self.readline, '')
+        return iter(self.stream)
 
     def __repr__(self):
         return '<%s: %r (%r)>' % (
-- 
2.43.0


From bb0f518d5bb036282dd798bd90ee25aa856256bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:37 +0000
Subject: [PATCH 18/56] fix: multipart encoding of plain form fields

The value was written into the header block first and text values raised a
TypeError.
---
 verktyg/test.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index c7e71de..5dd2c08 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -98,10 +98,8 @@ def stream_encode_multipart(
                         break
                     write_binary(chunk)
             else:
-                if isinstance(value, str):
-                    write(value)
-                else:
-                    write_binary(value)
+                if not isinstance(value, bytes):
+                    value = str(value).encode(charset)
                 write('\r\n\r\n')
                 write_binary(value)
             write('\r\n')
-- 
2.43.0


From 6fb8738d42ce7aad32a9fb5875c7b5185f0d8c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:37 +0000
Subject: [PATCH 19/56] fix: test client sends cookies that have expired

---
 verktyg/test.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/verktyg/test.py b/verktyg/test.py
index 5dd2c08..00a63db 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -164,6 +164,7 @@ class _TestCookieJar(CookieJar):
         environment.
         """
         cvals = []
+        self.clear_expired_cookies()
         for cookie in self:
             cvals.append('%s=%s' % (cookie.name, cookie.value))
         if cvals:
-- 
2.43.0


From 80465cefbf4202097cdd1110b991d19806c2fbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:07 +0000
Subject: [PATCH 20/56] fix: compare If-None-Match entity tags weakly

A client or proxy holding W/"x" for a strong tag "x" never got a
not modified answer.
---
 verktyg/http/cache_control.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verktyg/http/cache_control.py b/verktyg/http/cache_control.py
index b94f52c..26148e6 100644
--- a/verktyg/http/cache_control.py
+++ b/verktyg/http/cache_control.py
@@ -618,6 +618,7 @@ def is_resource_modified(environ, etag=None, data=None, last_modified=None):
     if etag:
         if_none_match = parse_etags(environ.get('HTTP_IF_NONE_MATCH'))
         if if_none_match:
-            unmodified = if_none_match.contains_raw(etag)
+            # If-None-Match uses the weak comparison (RFC 7232, section 3.2)
+            unmodified = if_none_match.contains_weak(unquote_etag(etag)[0])
 
     return not unmodified
-- 
2.43.0


From d561393d024278afe3b39232c68585484fe38feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:09 +0000
Subject: [PATCH 21/56] fix: accept a list of disallow rules as documented

Every request for an exported file raised a TypeError if a list was given.
---
 verktyg/wsgi.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index 72665e3..bf7d218 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -399,7 +399,11 @@ class SharedDataMiddleware(object):
             self.exports[key] = loader
         if disallow is not None:
             from fnmatch import fnmatch
-            self.is_allowed = lambda x: not fnmatch(x, disallow)
+            if isinstance(disallow, str):
+                disallow = [disallow]
+            self.is_allowed = lambda x: not any(
+                fnmatch(x, rule) for rule in disallow
+            )
         self.fallback_mimetype = fallback_mimetype
 
     def is_allowed(self, filename):
-- 
2.43.0


From 66003edcdf4248d465eabe6ced134d6abf903136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:03 +0000
Subject: [PATCH 22/56] fix: nested exception dispatchers yield classes instead
 of handlers

Nesting dispatchers with add_exception_handlers, as documented, raised an
AttributeError.
---
 verktyg/exception_dispatch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verktyg/exception_dispatch.py b/verktyg/exception_dispatch.py
index 6634a21..1e731d2 100644
--- a/verktyg/exception_dispatch.py
+++ b/verktyg/exception_dispatch.py
@@ -77,7 +77,8 @@ class ExceptionDispatcher(ExceptionHandlerFactory):
                 self._handlers[handler.exception_class].append(handler)
 
     def get_exception_handlers(self):
-        return iter(self._handlers)
+        for handlers in self._handlers.values():
+            yield from handlers
 
     def lookup(
         self, exception_class,
-- 
2.43.0


From 4ffe54af61ef71c59286adb876457e05ae1e6605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:16 +0000
Subject: [PATCH 23/56] fix: test client does not close the redirects it
 follows

---
 verktyg/test.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/verktyg/test.py b/verktyg/test.py
index 00a63db..e948eae 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -800,6 +800,9 @@ class Client(object):
                 not follow_redirects
             ):
                 break
+            # nobody will ever see the body of the redirect
+            if hasattr(response[0], 'close'):
+                response[0].close()
             new_location = response[2]['location']
 
             new_redirect_entry = (new_location, status_code)
-- 
2.43.0


From 552cdec6f538758b454b23dfa37c60f814ae55c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:36 +0000
Subject: [PATCH 24/56] fix: close every file of an EnvironBuilder

Only the first file of each field was closed.
---
 verktyg/test.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index e948eae..50c3b37 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -541,10 +541,10 @@ class EnvironBuilder(object):
         if self.closed:
             return
         try:
-            files = self.files.values()
+            files = self.files
         except AttributeError:
-            files = ()
-        for f in files:
+            files = {}
+        for _, f in _iter_data(files):
             try:
                 f.close()
             except Exception:
-- 
2.43.0


From 6849b827adae90b2f7f655a9ead91a832c7af29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:36 +0000
Subject: [PATCH 25/56] fix: url encode every value of a multi value form or
 query

EnvironBuilder only sent the first value of each field.
---
 verktyg/test.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index 50c3b37..9191506 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -484,7 +484,9 @@ class EnvironBuilder(object):
     def _get_query_string(self):
         if self._query_string is None:
             if self._args is not None:
-                return urlencode(self._args, encoding=self.charset)
+                return urlencode(
+                    list(_iter_data(self._args)), encoding=self.charset
+                )
             return ''
         return self._query_string
 
@@ -570,7 +572,9 @@ class EnvironBuilder(object):
             )
             content_type += '; boundary="%s"' % boundary
         elif content_type == 'application/x-www-form-urlencoded':
-            values = urlencode(self.form, encoding=self.charset)
+            values = urlencode(
+                list(_iter_data(self.form)), encoding=self.charset
+            )
             values = values.encode('ascii')
             content_length = len(values)
             input_stream = BytesIO(values)
-- 
2.43.0


From 0066d13bea7e1ca6f5dbb920a32fa3d6cc256215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:47 +0000
Subject: [PATCH 26/56] fix: accept anonymous temporary files as uploads

Their name attribute is the file descriptor, an int, which FileStorage and
the multipart encoder tried to use as a file name.
---
 verktyg/http/basic.py | 4 ++++
 verktyg/test.py       | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index bbb45dc..3adbd33 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -861,6 +861,10 @@ class FileStorage(object):
                     sys.getfilesystemencoding(), 'replace'
                 )
 
+            # The name of an anonymous temporary file is its file descriptor.
+            if not isinstance(filename, str):
+                filename = None
+
             if filename and filename[0] == '<' and filename[-1] == '>':
                 filename = None
 
diff --git a/verktyg/test.py b/verktyg/test.py
index 9191506..727be4f 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -82,6 +82,9 @@ def stream_encode_multipart(
                 filename = getattr(
                     value, 'filename', getattr(value, 'name', None),
                 )
+                if isinstance(filename, int):
+                    # the descriptor of an anonymous temporary file
+                    filename = None
                 content_type = getattr(value, 'content_type', None)
                 if content_type is None and filename:
                     content_type = mimetypes.guess_type(filename)[0]
-- 
2.43.0


From fe9374bf9f452f53e0e108e632849323e292cd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:33 +0000
Subject: [PATCH 27/56] fix: do not swallow errors of the body while measuring
 it

calculate_content_length took a RuntimeError raised by the response iterable
for the refusal to buffer it, and the half consumed body was sent as if it
was complete.
---
 verktyg/responses.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/verktyg/responses.py b/verktyg/responses.py
index b89a650..9c87cb8 100644
--- a/verktyg/responses.py
+++ b/verktyg/responses.py
@@ -340,10 +340,11 @@ class BaseResponse(object):
 
     def calculate_content_length(self):
         """Returns the content length if available or `None` otherwise."""
-        try:
-            self._ensure_sequence()
-        except RuntimeError:
+        if not self.is_sequence and (
+            self.direct_passthrough or not self.implicit_sequence_conversion
+        ):
             return None
+        self._ensure_sequence()
         return sum(len(x) for x in self.iter_encoded())
 
     def _ensure_sequence(self, mutable=False):
-- 
2.43.0


From 15895a27cfa28f23db2cb576065e313d2fc71a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:03 +0000
Subject: [PATCH 28/56] fix: negotiate languages and charsets by their own
 headers

---
 verktyg/accept/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verktyg/accept/__init__.py b/verktyg/accept/__init__.py
index 2d93257..e575b5f 100644
--- a/verktyg/accept/__init__.py
+++ b/verktyg/accept/__init__.py
@@ -172,13 +172,13 @@ class Representation(object):
         )
 
         language_acceptability = (
-            self._content_type.acceptability(accept)
+            self._language.acceptability(accept_language)
             if self._language is not None else
             None
         )
 
         charset_acceptability = (
-            self._charset.acceptability
+            self._charset.acceptability(accept_charset)
             if self._charset is not None else
             None
         )
-- 
2.43.0


From 8b686a27f0c9816c55def3b786c56d3d81ea5123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:01 +0000
Subject: [PATCH 29/56] fix: static files answered every POST with 304 Not
 Modified

---
 verktyg/wsgi.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index bf7d218..29ddf17 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -513,7 +513,11 @@ class SharedDataMiddleware(object):
                 ('Etag', '"%s"' % etag),
                 ('Cache-Control', 'max-age=%d, public' % timeout)
             ]
-            if not is_resource_modified(environ, etag, last_modified=mtime):
+            # only retrievals can be answered with 304 (RFC 7232, section 4.1)
+            if (
+                environ['REQUEST_METHOD'] in ('GET', 'HEAD') and
+                not is_resource_modified(environ, etag, last_modified=mtime)
+            ):
                 f.close()
                 start_response('304 Not Modified', headers)
                 return []
-- 
2.43.0


From 75ecfce9cebdf45c038d01becd6eedf02c302c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:18 +0000
Subject: [PATCH 30/56] fix: close the static file when the response cannot be
 started

---
 verktyg/wsgi.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index 29ddf17..3c84b58 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -530,7 +530,11 @@ class SharedDataMiddleware(object):
             ('Content-Length', str(file_size)),
             ('Last-Modified', http_date(mtime))
         ))
-        start_response('200 OK', headers)
+        try:
+            start_response('200 OK', headers)
+        except BaseException:
+            f.close()
+            raise
         return wrap_file(environ, f)
 
 
-- 
2.43.0


From 7fa19dd3697b1a68f4b60a786a928a758117cfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:24 +0000
Subject: [PATCH 31/56] fix: directories in packages are not files

---
 verktyg/wsgi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index 3c84b58..ecf8c3d 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -444,6 +444,8 @@ class SharedDataMiddleware(object):
             path = posixpath.join(package_path, path)
             if not provider.has_resource(path):
                 return None, None
+            if provider.resource_isdir(path):
+                return None, None
             basename = posixpath.basename(path)
             if filesystem_bound:
                 return basename, self._opener(
-- 
2.43.0


From 3edc6577ef97302265298dcfe7f94a11db6ed67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:27 +0000
Subject: [PATCH 32/56] fix: resources of zipped packages were sent with
 Content-Length 0

---
 verktyg/wsgi.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index ecf8c3d..57394e8 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -450,11 +450,11 @@ class SharedDataMiddleware(object):
             if filesystem_bound:
                 return basename, self._opener(
                     provider.get_resource_filename(manager, path))
-            return basename, lambda: (
-                provider.get_resource_stream(manager, path),
-                loadtime,
-                0
-            )
+
+            def opener():
+                data = provider.get_resource_string(manager, path)
+                return BytesIO(data), loadtime, len(data)
+            return basename, opener
         return loader
 
     def get_directory_loader(self, directory):
-- 
2.43.0


From a46667244fbe5e907b9a26711813fcef7e6b7be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:10 +0000
Subject: [PATCH 33/56] fix: recognise the empty entity tag in conditional
 requests

parse_etags turned "" into None, so a client holding a representation with an
empty (but valid) entity tag was never answered 304.
---
 verktyg/http/cache_control.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/http/cache_control.py b/verktyg/http/cache_control.py
index 26148e6..cc5c6e0 100644
--- a/verktyg/http/cache_control.py
+++ b/verktyg/http/cache_control.py
@@ -565,7 +565,7 @@ def parse_etags(value):
         is_weak, quoted, raw = match.groups()
         if raw == '*':
             return ETags(star_tag=True)
-        elif quoted:
+        elif quoted is not None:
             raw = quoted
         if is_weak:
             weak.append(raw)
-- 
2.43.0


From 94bef1aa33cff1f0c86418cae9f48c7dd16f41b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:31 +0000
Subject: [PATCH 34/56] fix: subdomain redirects raised AttributeError in the
 test client

The server names are compared as lists of labels, which have no endswith.
---
 verktyg/test.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index 727be4f..8187a0d 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -725,7 +725,9 @@ class Client(object):
         real_server_name = get_host(environ).rsplit(':', 1)[0].split('.')
 
         if self.allow_subdomain_redirects:
-            allowed = cur_server_name.endswith(real_server_name)
+            allowed = (
+                cur_server_name[-len(real_server_name):] == real_server_name
+            )
         else:
             allowed = cur_server_name == real_server_name
 
-- 
2.43.0


From b314574a35efc999ba9b83ecea2dc82e91a2c271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:31 +0000
Subject: [PATCH 35/56] fix: the test client took relative redirects for
 external ones

---
 verktyg/test.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index 8187a0d..507e341 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -17,7 +17,9 @@ from random import random
 from itertools import chain
 from tempfile import TemporaryFile
 from io import BytesIO
-from urllib.parse import urlencode, urlunsplit, urlsplit, unquote as urlunquote
+from urllib.parse import (
+    urlencode, urljoin, urlunsplit, urlsplit, unquote as urlunquote,
+)
 
 from urllib.request import Request
 
@@ -718,6 +720,7 @@ class Client(object):
         """Resolves a single redirect and triggers the request again
         directly on this redirect client.
         """
+        new_location = urljoin(get_current_url(environ), new_location)
         scheme, netloc, script_root, qs, anchor = urlsplit(new_location)
         base_url = urlunsplit((scheme, netloc, '', '', '')).rstrip('/') + '/'
 
-- 
2.43.0


From 23f0640c83b2bcc49f02ba80cd295a467385908d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:31 +0000
Subject: [PATCH 36/56] fix: redirects within a mounted application lost its
 script root in the test client

---
 verktyg/test.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index 507e341..cfc80ef 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -29,7 +29,8 @@ from verktyg.urls import url_fix, iri_to_uri
 from verktyg.datastructures import MultiDict, CombinedMultiDict
 from verktyg.http import Headers, FileStorage, dump_cookie
 from verktyg.wsgi import (
-    get_host, get_current_url, ClosingIterator, wsgi_encoding_dance,
+    get_host, get_current_url, get_script_name, ClosingIterator,
+    wsgi_encoding_dance,
 )
 from verktyg.requests import BaseRequest
 
@@ -721,8 +722,20 @@ class Client(object):
         directly on this redirect client.
         """
         new_location = urljoin(get_current_url(environ), new_location)
-        scheme, netloc, script_root, qs, anchor = urlsplit(new_location)
-        base_url = urlunsplit((scheme, netloc, '', '', '')).rstrip('/') + '/'
+        scheme, netloc, path, qs, anchor = urlsplit(new_location)
+
+        # targets below the root of the application stay below it
+        script_root = ''
+        root_parts = get_script_name(environ).rstrip('/').split('/')
+        path_parts = path.split('/')
+        depth = len(root_parts)
+        if [urlunquote(part) for part in path_parts[:depth]] == root_parts:
+            script_root = '/'.join(path_parts[:depth])
+            path = '/'.join([''] + path_parts[depth:])
+
+        base_url = urlunsplit(
+            (scheme, netloc, script_root, '', '')
+        ).rstrip('/') + '/'
 
         cur_server_name = netloc.split(':', 1)[0].split('.')
         real_server_name = get_host(environ).rsplit(':', 1)[0].split('.')
@@ -752,7 +765,7 @@ class Client(object):
         self.response_wrapper = None
         try:
             return self.open(
-                path=script_root, base_url=base_url,
+                path=path, base_url=base_url,
                 query_string=qs, as_tuple=True,
                 buffered=buffered, method=method,
             )
-- 
2.43.0


From 9a154d202375c741b91a60d0481586367baad4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:31 +0000
Subject: [PATCH 37/56] fix: the test client kept cookies set and deleted by
 the same response

---
 verktyg/test.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index cfc80ef..3730a26 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -180,10 +180,14 @@ class _TestCookieJar(CookieJar):
         """Extract the server's set-cookie headers as cookies into the
         cookie jar.
         """
-        self.extract_cookies(
-            _TestCookieResponse(headers),
-            Request(get_current_url(environ)),
-        )
+        request = Request(get_current_url(environ))
+        # one by one, as `CookieJar` handles all deletions in a response
+        # before it sets the first cookie
+        for key, value in headers:
+            if key.lower() == 'set-cookie':
+                self.extract_cookies(
+                    _TestCookieResponse([(key, value)]), request,
+                )
 
 
 def _iter_data(data):
-- 
2.43.0


From 7c6dc442c7829ad2af3c82fb4bd7a9fec079a133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:31 +0000
Subject: [PATCH 38/56] fix: run_wsgi_app closed the iterator of an application
 besides its iterable

---
 verktyg/test.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index 3730a26..f06cfb3 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -981,7 +981,8 @@ def run_wsgi_app(app, environ, buffered=False):
                 if close_func is not None:
                     close_func()
                 raise
-        if buffer:
+        if buffer or app_iter is not app_rv:
+            # only what the application returned is closed, not its iterator
             app_iter = chain(buffer, app_iter)
         if close_func is not None and app_iter is not app_rv:
             app_iter = ClosingIterator(app_iter, close_func)
-- 
2.43.0


From 77b24343cc6a6bbbafcecd124823e21c65518d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:31 +0000
Subject: [PATCH 39/56] fix: buffers written to a response stream were sent
 with what they contained later

---
 verktyg/responses.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/verktyg/responses.py b/verktyg/responses.py
index 9c87cb8..a75e3d6 100644
--- a/verktyg/responses.py
+++ b/verktyg/responses.py
@@ -794,6 +794,9 @@ class ResponseStream(object):
         if self.closed:
             raise ValueError('I/O operation on closed file')
         self.response._ensure_sequence(mutable=True)
+        if isinstance(value, (bytearray, memoryview)):
+            # the caller may use the buffer again
+            value = bytes(value)
         self.response.response.append(value)
         self.response.headers.pop('Content-Length', None)
 
-- 
2.43.0


From ecf8412db52337d6402b1233b0cfaf9f42584bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:20 +0000
Subject: [PATCH 40/56] fix: cache control and authentication views missed
 in-place unions

---
 verktyg/datastructures.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index 4c55381..e92b0e3 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -223,6 +223,7 @@ class UpdateDictMixin(object):
     clear = calls_update('clear')
     popitem = calls_update('popitem')
     update = calls_update('update')
+    __ior__ = calls_update('__ior__')
     del calls_update
 
 
-- 
2.43.0


From a5fe8138e606fb54d7fb8e356a11d60ceb460e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:27 +0000
Subject: [PATCH 41/56] fix: resetting a cache directive that was not set
 raised KeyError

---
 verktyg/http/cache_control.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/http/cache_control.py b/verktyg/http/cache_control.py
index cc5c6e0..e4d052e 100644
--- a/verktyg/http/cache_control.py
+++ b/verktyg/http/cache_control.py
@@ -332,7 +332,7 @@ class _CacheControl(datastructures.UpdateDictMixin, dict):
                 self.pop(key, None)
         else:
             if value is None:
-                self.pop(key)
+                self.pop(key, None)
             elif value is True:
                 self[key] = None
             else:
-- 
2.43.0


From 832ff7f4b1df14adf1124353e4b172544e7cafba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:35 +0000
Subject: [PATCH 42/56] fix: reading content_range rewrote or removed the
 header

---
 verktyg/http/cache_control.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verktyg/http/cache_control.py b/verktyg/http/cache_control.py
index e4d052e..44f73f5 100644
--- a/verktyg/http/cache_control.py
+++ b/verktyg/http/cache_control.py
@@ -161,8 +161,10 @@ class ContentRange(object):
     def __init__(self, units, start, stop, length=None, on_update=None):
         if not is_byte_range_valid(start, stop, length):
             raise ValueError('Bad range provided')
-        self.on_update = on_update
+        # nothing is updated before the initial values are set
+        self.on_update = None
         self.set(start, stop, length, units)
+        self.on_update = on_update
 
     def _callback_property(name):
         def fget(self):
-- 
2.43.0


From 8ab4d7af37d9b3043a3af9f5b42750d673562074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:04 +0000
Subject: [PATCH 43/56] fix: HeaderSet.remove kept elements named in upper case

---
 verktyg/http/basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index 3adbd33..b110e01 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -993,8 +993,8 @@ class HeaderSet(object):
         if key not in self._set:
             raise KeyError(header)
         self._set.remove(key)
-        for idx, key in enumerate(self._headers):
-            if key.lower() == header:
+        for idx, item in enumerate(self._headers):
+            if item.lower() == key:
                 del self._headers[idx]
                 break
         if self.on_update is not None:
-- 
2.43.0


From 58b4c1b185edcf36bc63e07dbc60705de5de1bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:48 +0000
Subject: [PATCH 44/56] fix: run_wsgi_app left iterables open that fail to be
 iterated

---
 verktyg/test.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index f06cfb3..88d3b01 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -953,7 +953,12 @@ def run_wsgi_app(app, environ, buffered=False):
 
     app_rv = app(environ, start_response)
     close_func = getattr(app_rv, 'close', None)
-    app_iter = iter(app_rv)
+    try:
+        app_iter = iter(app_rv)
+    except BaseException:
+        if close_func is not None:
+            close_func()
+        raise
 
     # when buffering we emit the close call early and convert the
     # application iterator into a regular list
-- 
2.43.0


From 6bdc796990cbfb7096c866b8d93def2852c3f991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:19 +0000
Subject: [PATCH 45/56] fix: immutable lists and dicts refuse clear() and |= as
 well

---
 verktyg/datastructures.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index e92b0e3..79dd214 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -95,6 +95,9 @@ class ImmutableListMixin(object):
     def sort(self, cmp=None, key=None, reverse=None):
         is_immutable(self)
 
+    def clear(self):
+        is_immutable(self)
+
 
 class ImmutableList(ImmutableListMixin, list):
     """An immutable :class:`list`.
@@ -152,6 +155,9 @@ class ImmutableDictMixin(object):
     def __delitem__(self, key):
         is_immutable(self)
 
+    def __ior__(self, other):
+        is_immutable(self)
+
     def clear(self):
         is_immutable(self)
 
-- 
2.43.0


From 742517a55f98babc340b191f783246cd434e5059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:19 +0000
Subject: [PATCH 46/56] fix: MultiDict.listvalues hands out copies like lists()
 does

---
 verktyg/datastructures.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index 79dd214..f67969d 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -519,7 +519,8 @@ class MultiDict(TypeConversionDict):
         True
         """
 
-        return dict.values(self)
+        for values in dict.values(self):
+            yield list(values)
 
     def copy(self):
         """Return a shallow copy of this object."""
-- 
2.43.0


From 5e005280d2f3d52519558ba7626d4a6b7f378355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:19 +0000
Subject: [PATCH 47/56] fix: is_secure tells whether the connection is
 encrypted

---
 verktyg/requests.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/requests.py b/verktyg/requests.py
index 6965d3b..e54c125 100644
--- a/verktyg/requests.py
+++ b/verktyg/requests.py
@@ -435,7 +435,7 @@ class BaseRequest(object):
     def is_secure(self):
         """`True` if the request is made over an encrypted connection
         """
-        self.environ['wsgi.url_scheme'] == 'https',
+        return self.environ['wsgi.url_scheme'] == 'https'
 
     @property
     def is_multithread(self):
-- 
2.43.0


From af7848c6c1aa9aaf1d23d2caae142609605c8e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:19 +0000
Subject: [PATCH 48/56] fix: max_forwards is None for requests without the
 header

---
 verktyg/requests.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verktyg/requests.py b/verktyg/requests.py
index e54c125..f23954e 100644
--- a/verktyg/requests.py
+++ b/verktyg/requests.py
@@ -615,8 +615,8 @@ class CommonRequestDescriptorsMixin(object):
         that can forward the request to the next inbound server.
         """
         try:
-            return int(self.environ.get('HTTP_MAX_FORWARDS'))
-        except ValueError:
+            return int(self.environ['HTTP_MAX_FORWARDS'])
+        except (KeyError, ValueError):
             return None
 
     def _parse_content_type(self):
-- 
2.43.0


From 2eb1e27a585f0939dd3fcd974b4fafd4c3e5e47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:34 +0000
Subject: [PATCH 49/56] fix: malformed Range headers are None instead of an
 error

---
 verktyg/http/cache_control.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/verktyg/http/cache_control.py b/verktyg/http/cache_control.py
index 44f73f5..8a1742e 100644
--- a/verktyg/http/cache_control.py
+++ b/verktyg/http/cache_control.py
@@ -134,21 +134,24 @@ def parse_range_header(value, make_inclusive=True):
         if item.startswith('-'):
             if last_end < 0:
                 return None
-            begin = int(item)
+            try:
+                begin = int(item)
+            except ValueError:
+                return None
             end = None
             last_end = -1
         elif '-' in item:
             begin, end = item.split('-', 1)
-            begin = int(begin)
+            try:
+                begin = int(begin)
+                end = int(end) + 1 if end else None
+            except ValueError:
+                return None
             if begin < last_end or last_end < 0:
                 return None
-            if end:
-                end = int(end) + 1
-                if begin >= end:
-                    return None
-            else:
-                end = None
-            last_end = end
+            if end is not None and begin >= end:
+                return None
+            last_end = end if end is not None else -1
         ranges.append((begin, end))
 
     return Range(units, ranges)
-- 
2.43.0


From cdd320f622800fe7ca444a72bfbfc9985525f69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:34 +0000
Subject: [PATCH 50/56] fix: option headers without any value are empty instead
 of an error

---
 verktyg/http/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index b110e01..7b08371 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -686,7 +686,7 @@ def parse_options_header(value):
         return '', {}
 
     parts = _tokenize(';' + value)
-    name = next(parts)[0]
+    name = next(parts, ('', None))[0]
     extra = dict(parts)
     return name, extra
 
-- 
2.43.0


From 3709913f80e7e614874de4efe09995f261fa084a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:34 +0000
Subject: [PATCH 51/56] fix: no_transform is a flag, so that it can be read

---
 verktyg/http/cache_control.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verktyg/http/cache_control.py b/verktyg/http/cache_control.py
index 8a1742e..b924a13 100644
--- a/verktyg/http/cache_control.py
+++ b/verktyg/http/cache_control.py
@@ -306,7 +306,7 @@ class _CacheControl(datastructures.UpdateDictMixin, dict):
     no_cache = cache_property('no-cache', '*', None)
     no_store = cache_property('no-store', None, bool)
     max_age = cache_property('max-age', -1, int)
-    no_transform = cache_property('no-transform', None, None)
+    no_transform = cache_property('no-transform', None, bool)
 
     def __init__(self, values=(), on_update=None):
         dict.__init__(self, values or ())
@@ -376,7 +376,7 @@ class RequestCacheControl(datastructures.ImmutableDictMixin, _CacheControl):
 
     max_stale = cache_property('max-stale', '*', int)
     min_fresh = cache_property('min-fresh', '*', int)
-    no_transform = cache_property('no-transform', None, None)
+    no_transform = cache_property('no-transform', None, bool)
     only_if_cached = cache_property('only-if-cached', None, bool)
 
 
-- 
2.43.0


From 0e6320dff616bfc219d156b75dc9e348d4154ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:30 +0000
Subject: [PATCH 52/56] fix: hosts are compared with trusted subdomains instead
 of failing

---
 verktyg/wsgi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index 57394e8..f9e2ca2 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -134,7 +134,7 @@ def host_is_trusted(hostname, trusted_list):
         ref = _normalize(ref)
         if ref == hostname:
             return True
-        if suffix_match and hostname.endswith('.' + ref):
+        if suffix_match and hostname.endswith(b'.' + ref):
             return True
     return False
 
-- 
2.43.0


From 139bb505238b9b72ea837768beeca74651ba329a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:07 +0000
Subject: [PATCH 53/56] fix: decorators of expose can be used for several
 functions

---
 verktyg/application.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/verktyg/application.py b/verktyg/application.py
index 61257b8..f93ffc2 100644
--- a/verktyg/application.py
+++ b/verktyg/application.py
@@ -161,16 +161,16 @@ class ApplicationBuilder(object):
         """ Decorator to bind a function to an endpoint and optionally the
         endpoint to a route.
         """
+        route = kwargs.pop('route', None)
+
         def wrapper(f):
-            nonlocal endpoint
-            if endpoint is None:
-                endpoint = f.__name__
+            # the decorator may be used for several functions
+            name = f.__name__ if endpoint is None else endpoint
 
-            route = kwargs.pop('route', None)
             if route is not None:
-                self.add_routes(Route(route, endpoint=endpoint))
+                self.add_routes(Route(route, endpoint=name))
 
-            return expose(self, endpoint, *args, **kwargs)(f)
+            return expose(self, name, *args, **kwargs)(f)
         return wrapper
 
     def add_middleware(self, middleware, *args, **kwargs):
-- 
2.43.0


From ef4bb638e383d3478ccbd79e0ac978301ff906ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:07 +0000
Subject: [PATCH 54/56] fix: Headers.extend added part of what it refused

---
 verktyg/http/basic.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index 7b08371..aa0063b 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -280,16 +280,19 @@ class Headers(object):
         """Extend the headers with a dict or an iterable yielding keys and
         values.
         """
+        # nothing is added unless all of it can be
+        new = Headers()
         if isinstance(iterable, dict):
             for key, value in iterable.items():
                 if isinstance(value, (tuple, list)):
                     for v in value:
-                        self.add(key, v)
+                        new.add(key, v)
                 else:
-                    self.add(key, value)
+                    new.add(key, value)
         else:
             for key, value in iterable:
-                self.add(key, value)
+                new.add(key, value)
+        self._list.extend(new)
 
     def __delitem__(self, key, _index_operation=True):
         if _index_operation and isinstance(key, (int, slice)):
-- 
2.43.0


From a343d6b19fc2cbe697807ff462141733ce18c419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:53 +0000
Subject: [PATCH 55/56] fix: names with quotes broke multipart forms

---
 verktyg/test.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index 88d3b01..0094863 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -27,7 +27,9 @@ from http.cookiejar import CookieJar
 
 from verktyg.urls import url_fix, iri_to_uri
 from verktyg.datastructures import MultiDict, CombinedMultiDict
-from verktyg.http import Headers, FileStorage, dump_cookie
+from verktyg.http import (
+    Headers, FileStorage, dump_cookie, quote_header_value,
+)
 from verktyg.wsgi import (
     get_host, get_current_url, get_script_name, ClosingIterator,
     wsgi_encoding_dance,
@@ -77,8 +79,8 @@ def stream_encode_multipart(
     for key, values in values.lists():
         for value in values:
             write(
-                '--%s\r\nContent-Disposition: form-data; name="%s"' %
-                (boundary, key),
+                '--%s\r\nContent-Disposition: form-data; name=%s' %
+                (boundary, quote_header_value(key, allow_token=False)),
             )
             reader = getattr(value, 'read', None)
             if reader is not None:
@@ -94,7 +96,9 @@ def stream_encode_multipart(
                 if content_type is None:
                     content_type = 'application/octet-stream'
                 if filename is not None:
-                    write('; filename="%s"\r\n' % filename)
+                    write('; filename=%s\r\n' % quote_header_value(
+                        filename, allow_token=False,
+                    ))
                 else:
                     write('\r\n')
                 write('Content-Type: %s\r\n\r\n' % content_type)
-- 
2.43.0


From 5bda9906b2a16c8dd512a000efa06a7368a8dfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:53 +0000
Subject: [PATCH 56/56] fix: query arguments without a value were dropped from
 args

---
 verktyg/requests.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/requests.py b/verktyg/requests.py
index f23954e..d31ba6f 100644
--- a/verktyg/requests.py
+++ b/verktyg/requests.py
@@ -267,7 +267,7 @@ class BaseRequest(object):
             errors=self.encoding_errors,
         )
         return self.parameter_storage_class(parse_qsl(
-            qs, errors=self.encoding_errors,
+            qs, keep_blank_values=True, errors=self.encoding_errors,
         ))
 
     def get_data(self, cache=True, as_text=False):
-- 
2.43.0

