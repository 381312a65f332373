From 1c0e409e5acb5ad4149922322630b21a89e021ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:03 +0000
Subject: [PATCH 01/65] fix: match route paths completely, not up to a trailing
 newline

'$' also matches before a trailing newline, so '/foo%0A' was routed to
'/foo', and a Mount computed a wrong root path for it.
---
 starlette/routing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starlette/routing.py b/starlette/routing.py
index add7df0..73ed6a1 100644
--- a/starlette/routing.py
+++ b/starlette/routing.py
@@ -166,9 +166,9 @@ def compile_path(
     if is_host:
         # Align with `Host.matches()` behavior, which ignores port.
         hostname = path[idx:].split(":")[0]
-        path_regex += re.escape(hostname) + "$"
+        path_regex += re.escape(hostname) + r"\Z"
     else:
-        path_regex += re.escape(path[idx:]) + "$"
+        path_regex += re.escape(path[idx:]) + r"\Z"
 
     path_format += path[idx:]
 
-- 
2.43.0


From 73c6d74f219ec1c68ee25a725af88d0bd5af99d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:19 +0000
Subject: [PATCH 02/65] fix: keep ?, # and % of a request path out of the URL's
 other components

URL(scope=...) pasted the decoded path into a URL, so for '/a%3Fb' request.url
and the slash redirect had path '/a' and query 'b'.
---
 starlette/datastructures.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/starlette/datastructures.py b/starlette/datastructures.py
index f5d74d2..c913863 100644
--- a/starlette/datastructures.py
+++ b/starlette/datastructures.py
@@ -32,7 +32,8 @@ class URL:
             assert not components, 'Cannot set both "scope" and "**components".'
             scheme = scope.get("scheme", "http")
             server = scope.get("server", None)
-            path = scope["path"]
+            # The path of a scope is decoded: these characters would not be part of the path of a URL.
+            path = scope["path"].replace("%", "%25").replace("?", "%3F").replace("#", "%23")
             query_string = scope.get("query_string", b"")
 
             host_header = None
-- 
2.43.0


From 1d28ec538ac96ffbb3990f119b3fe907c05c4cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:19 +0000
Subject: [PATCH 03/65] fix: substitute URL path parameters in a single pass

A value containing '{other}' was itself substituted by the next parameter.
---
 starlette/routing.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/starlette/routing.py b/starlette/routing.py
index 73ed6a1..baa89d7 100644
--- a/starlette/routing.py
+++ b/starlette/routing.py
@@ -106,12 +106,14 @@ def replace_params(
     param_convertors: dict[str, Convertor[typing.Any]],
     path_params: dict[str, str],
 ) -> tuple[str, dict[str, str]]:
+    values: dict[str, str] = {}
     for key, value in list(path_params.items()):
         if "{" + key + "}" in path:
             convertor = param_convertors[key]
-            value = convertor.to_string(value)
-            path = path.replace("{" + key + "}", value)
+            values[key] = convertor.to_string(value)
             path_params.pop(key)
+    # Substitute in a single pass: a value may itself contain "{param}".
+    path = PARAM_REGEX.sub(lambda match: values.get(match[1], match[0]), path)
     return path, path_params
 
 
-- 
2.43.0


From 8861cd50314af5cd67ef4e8d03d64c98fbefa657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:12 +0000
Subject: [PATCH 04/65] fix: do not build URLs with unfilled mount or host
 parameters

url_for on a route below Mount('/{user}') or Host('{sub}.org') without that
parameter returned a URL containing the literal '{user}'.
---
 starlette/routing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/starlette/routing.py b/starlette/routing.py
index baa89d7..d9e0dde 100644
--- a/starlette/routing.py
+++ b/starlette/routing.py
@@ -432,6 +432,8 @@ class Mount(BaseRoute):
         return Match.NONE, {}
 
     def url_path_for(self, name: str, /, **path_params: typing.Any) -> URLPath:
+        if not path_params.keys() >= self.param_convertors.keys() - {"path"}:
+            raise NoMatchFound(name, path_params)
         if self.name is not None and name == self.name and "path" in path_params:
             # 'name' matches "<mount_name>".
             path_params["path"] = path_params["path"].lstrip("/")
@@ -498,6 +500,8 @@ class Host(BaseRoute):
         return Match.NONE, {}
 
     def url_path_for(self, name: str, /, **path_params: typing.Any) -> URLPath:
+        if not path_params.keys() >= self.param_convertors.keys():
+            raise NoMatchFound(name, path_params)
         if self.name is not None and name == self.name and "path" in path_params:
             # 'name' matches "<mount_name>".
             path = path_params.pop("path")
-- 
2.43.0


From eec28c5a209756bc9658d7746661e4a29001e62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:20 +0000
Subject: [PATCH 05/65] fix: keep the host when reversing a Host nested in a
 Mount

---
 starlette/routing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/routing.py b/starlette/routing.py
index d9e0dde..0ee324b 100644
--- a/starlette/routing.py
+++ b/starlette/routing.py
@@ -455,7 +455,7 @@ class Mount(BaseRoute):
             for route in self.routes or []:
                 try:
                     url = route.url_path_for(remaining_name, **remaining_params)
-                    return URLPath(path=path_prefix.rstrip("/") + str(url), protocol=url.protocol)
+                    return URLPath(path=path_prefix.rstrip("/") + str(url), protocol=url.protocol, host=url.host)
                 except NoMatchFound:
                     pass
         raise NoMatchFound(name, path_params)
-- 
2.43.0


From aa9a427cea39ea10fba71f3427662a3a43843158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:39 +0000
Subject: [PATCH 06/65] fix: do not return the rest of a partly streamed body
 as the body

---
 starlette/requests.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/starlette/requests.py b/starlette/requests.py
index 7dc04a7..8e9105c 100644
--- a/starlette/requests.py
+++ b/starlette/requests.py
@@ -204,6 +204,7 @@ class Request(HTTPConnection):
         self._receive = receive
         self._send = send
         self._stream_consumed = False
+        self._stream_started = False
         self._is_disconnected = False
         self._form = None
 
@@ -228,6 +229,7 @@ class Request(HTTPConnection):
                 body = message.get("body", b"")
                 if not message.get("more_body", False):
                     self._stream_consumed = True
+                self._stream_started = self._stream_started or bool(body)
                 if body:
                     yield body
             elif message["type"] == "http.disconnect":  # pragma: no branch
@@ -235,8 +237,16 @@ class Request(HTTPConnection):
                 raise ClientDisconnect()
         yield b""
 
+    def _check_stream_is_whole(self) -> None:
+        # Part of the body has already been handed out, and was not kept.
+        if self._stream_started and not hasattr(self, "_body"):
+            if self._is_disconnected and not self._stream_consumed:
+                raise ClientDisconnect()
+            raise RuntimeError("Stream consumed")
+
     async def body(self) -> bytes:
         if not hasattr(self, "_body"):
+            self._check_stream_is_whole()
             chunks: list[bytes] = []
             async for chunk in self.stream():
                 chunks.append(chunk)
@@ -264,6 +274,7 @@ class Request(HTTPConnection):
             content_type: bytes
             content_type, _ = parse_options_header(content_type_header)
             if content_type == b"multipart/form-data":
+                self._check_stream_is_whole()
                 try:
                     multipart_parser = MultiPartParser(
                         self.headers,
@@ -278,6 +289,7 @@ class Request(HTTPConnection):
                         raise HTTPException(status_code=400, detail=exc.message)
                     raise exc
             elif content_type == b"application/x-www-form-urlencoded":
+                self._check_stream_is_whole()
                 form_parser = FormParser(self.headers, self.stream())
                 self._form = await form_parser.parse()
             else:
-- 
2.43.0


From deebe9439760693fbbbb9c5c197032bf7ba7e9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:34 +0000
Subject: [PATCH 07/65] fix: keep body messages received while polling for a
 disconnect

---
 starlette/requests.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/starlette/requests.py b/starlette/requests.py
index 8e9105c..7d3d6e3 100644
--- a/starlette/requests.py
+++ b/starlette/requests.py
@@ -206,6 +206,7 @@ class Request(HTTPConnection):
         self._stream_consumed = False
         self._stream_started = False
         self._is_disconnected = False
+        self._unread: list[Message] = []
         self._form = None
 
     @property
@@ -224,7 +225,7 @@ class Request(HTTPConnection):
         if self._stream_consumed:
             raise RuntimeError("Stream consumed")
         while not self._stream_consumed:
-            message = await self._receive()
+            message = self._unread.pop(0) if self._unread else await self._receive()
             if message["type"] == "http.request":
                 body = message.get("body", b"")
                 if not message.get("more_body", False):
@@ -322,6 +323,9 @@ class Request(HTTPConnection):
 
             if message.get("type") == "http.disconnect":
                 self._is_disconnected = True
+            elif message:
+                # Part of the body, which is left to whoever reads it.
+                self._unread.append(message)
 
         return self._is_disconnected
 
-- 
2.43.0


From fb752d44a6c321ed7c7f685443c7db2aa0a75ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:33 +0000
Subject: [PATCH 08/65] fix: do not complete a response whose application
 failed half way

---
 starlette/middleware/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/starlette/middleware/base.py b/starlette/middleware/base.py
index 2a59337..8279998 100644
--- a/starlette/middleware/base.py
+++ b/starlette/middleware/base.py
@@ -162,7 +162,10 @@ class BaseHTTPMiddleware:
                     if body:
                         yield body
                     if not message.get("more_body", False):
-                        break
+                        return
+                if app_exc is not None:
+                    # The response is cut short, and must not look complete.
+                    raise app_exc
 
             response = _StreamingResponse(status_code=message["status"], content=body_stream(), info=info)
             response.raw_headers = message["headers"]
-- 
2.43.0


From 09760a25c447d3b613c4556c7e9f7689021891ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:06 +0000
Subject: [PATCH 09/65] fix: do not raise an application error again after a
 middleware has handled it

---
 starlette/middleware/base.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/starlette/middleware/base.py b/starlette/middleware/base.py
index 8279998..98c14ca 100644
--- a/starlette/middleware/base.py
+++ b/starlette/middleware/base.py
@@ -104,8 +104,11 @@ class BaseHTTPMiddleware:
         wrapped_receive = request.wrapped_receive
         response_sent = anyio.Event()
         app_exc: Exception | None = None
+        app_exc_raised = False
 
         async def call_next(request: Request) -> Response:
+            nonlocal app_exc_raised
+
             async def receive_or_disconnect() -> Message:
                 if response_sent.is_set():
                     return {"type": "http.disconnect"}
@@ -150,12 +153,15 @@ class BaseHTTPMiddleware:
                     message = await recv_stream.receive()
             except anyio.EndOfStream:
                 if app_exc is not None:
+                    app_exc_raised = True
                     raise app_exc
                 raise RuntimeError("No response returned.")
 
             assert message["type"] == "http.response.start"
 
             async def body_stream() -> typing.AsyncGenerator[bytes, None]:
+                nonlocal app_exc_raised
+
                 async for message in recv_stream:
                     assert message["type"] == "http.response.body"
                     body = message.get("body", b"")
@@ -165,6 +171,7 @@ class BaseHTTPMiddleware:
                         return
                 if app_exc is not None:
                     # The response is cut short, and must not look complete.
+                    app_exc_raised = True
                     raise app_exc
 
             response = _StreamingResponse(status_code=message["status"], content=body_stream(), info=info)
@@ -180,7 +187,7 @@ class BaseHTTPMiddleware:
                 response_sent.set()
                 recv_stream.close()
 
-        if app_exc is not None:
+        if app_exc is not None and not app_exc_raised:
             raise app_exc
 
     async def dispatch(self, request: Request, call_next: RequestResponseEndpoint) -> Response:
-- 
2.43.0


From 4fb7f379a127896384f9bd2f804b06085863fb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:00 +0000
Subject: [PATCH 10/65] fix: keep a request message received while its receiver
 is cancelled

---
 starlette/middleware/base.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/starlette/middleware/base.py b/starlette/middleware/base.py
index 98c14ca..113f9b6 100644
--- a/starlette/middleware/base.py
+++ b/starlette/middleware/base.py
@@ -108,25 +108,29 @@ class BaseHTTPMiddleware:
 
         async def call_next(request: Request) -> Response:
             nonlocal app_exc_raised
+            # Messages for the app. One stays here if the app is cancelled while
+            # it is being received, which is how it polls for a disconnect.
+            received: list[Message] = []
 
             async def receive_or_disconnect() -> Message:
                 if response_sent.is_set():
                     return {"type": "http.disconnect"}
 
-                async with anyio.create_task_group() as task_group:
+                if not received:
+                    async with anyio.create_task_group() as task_group:
 
-                    async def wrap(func: typing.Callable[[], typing.Awaitable[T]]) -> T:
-                        result = await func()
-                        task_group.cancel_scope.cancel()
-                        return result
+                        async def wrap(func: typing.Callable[[], typing.Awaitable[T]]) -> T:
+                            result = await func()
+                            task_group.cancel_scope.cancel()
+                            return result
 
-                    task_group.start_soon(wrap, response_sent.wait)
-                    message = await wrap(wrapped_receive)
+                        task_group.start_soon(wrap, response_sent.wait)
+                        received.append(await wrap(wrapped_receive))
 
                 if response_sent.is_set():
                     return {"type": "http.disconnect"}
 
-                return message
+                return received.pop(0)
 
             async def send_no_error(message: Message) -> None:
                 try:
-- 
2.43.0


From 1e0f83caeac7d722357b1c583940ca0dda384652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:02 +0000
Subject: [PATCH 11/65] fix: report an OSError of a stream's producer as
 itself, not as a client disconnect

---
 starlette/responses.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/starlette/responses.py b/starlette/responses.py
index 81e89fa..24411b5 100644
--- a/starlette/responses.py
+++ b/starlette/responses.py
@@ -23,7 +23,7 @@ from starlette.background import BackgroundTask
 from starlette.concurrency import iterate_in_threadpool
 from starlette.datastructures import URL, Headers, MutableHeaders
 from starlette.requests import ClientDisconnect
-from starlette.types import Receive, Scope, Send
+from starlette.types import Message, Receive, Scope, Send
 
 
 class Response:
@@ -254,10 +254,14 @@ class StreamingResponse(Response):
         spec_version = tuple(map(int, scope.get("asgi", {}).get("spec_version", "2.0").split(".")))
 
         if spec_version >= (2, 4):
-            try:
-                await self.stream_response(send)
-            except OSError:
-                raise ClientDisconnect()
+
+            async def send_or_disconnect(message: Message) -> None:
+                try:
+                    await send(message)
+                except OSError:
+                    raise ClientDisconnect()
+
+            await self.stream_response(send_or_disconnect)
         else:
             with collapse_excgroups():
                 async with anyio.create_task_group() as task_group:
-- 
2.43.0


From 0e92bed7481133c5420538e3bcc483bfe09c2e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:18 +0000
Subject: [PATCH 12/65] fix: run the background task of a file response that
 answers with a range error

---
 starlette/responses.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/starlette/responses.py b/starlette/responses.py
index 24411b5..92fc2b8 100644
--- a/starlette/responses.py
+++ b/starlette/responses.py
@@ -365,9 +365,14 @@ class FileResponse(Response):
             try:
                 ranges = self._parse_range_header(http_range, stat_result.st_size)
             except MalformedRangeHeader as exc:
-                return await PlainTextResponse(exc.content, status_code=400)(scope, receive, send)
+                response = PlainTextResponse(exc.content, status_code=400, background=self.background)
+                return await response(scope, receive, send)
             except RangeNotSatisfiable as exc:
-                response = PlainTextResponse(status_code=416, headers={"Content-Range": f"*/{exc.max_size}"})
+                response = PlainTextResponse(
+                    status_code=416,
+                    headers={"Content-Range": f"*/{exc.max_size}"},
+                    background=self.background,
+                )
                 return await response(scope, receive, send)
 
             if len(ranges) == 1:
-- 
2.43.0


From 2f5fc7e67e20422caee0ca8dc33feb3fc343ab0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:55 +0000
Subject: [PATCH 13/65] fix: answer 400 to a range whose end precedes its start
 by one

---
 starlette/responses.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/responses.py b/starlette/responses.py
index 92fc2b8..965166b 100644
--- a/starlette/responses.py
+++ b/starlette/responses.py
@@ -480,7 +480,7 @@ class FileResponse(Response):
         if any(not (0 <= start < file_size) for start, _ in ranges):
             raise RangeNotSatisfiable(file_size)
 
-        if any(start > end for start, end in ranges):
+        if any(start >= end for start, end in ranges):
             raise MalformedRangeHeader("Range header: start must be less than end")
 
         if len(ranges) == 1:
-- 
2.43.0


From b64e1d2c7161b56c0854d3bfe60a460e98bcb458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:55 +0000
Subject: [PATCH 14/65] fix: return the whole file for a suffix range longer
 than it

---
 starlette/responses.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/responses.py b/starlette/responses.py
index 965166b..0999def 100644
--- a/starlette/responses.py
+++ b/starlette/responses.py
@@ -467,7 +467,7 @@ class FileResponse(Response):
 
         ranges = [
             (
-                int(_[0]) if _[0] else file_size - int(_[1]),
+                int(_[0]) if _[0] else max(file_size - int(_[1]), 0),
                 int(_[1]) + 1 if _[0] and _[1] and int(_[1]) < file_size else file_size,
             )
             for _ in _RANGE_PATTERN.findall(range_)
-- 
2.43.0


From f194a1308203b1b9b4ef9f81b917f8f327764f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:55 +0000
Subject: [PATCH 15/65] fix: ignore Range for file responses that are not a
 plain 200

---
 starlette/responses.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/starlette/responses.py b/starlette/responses.py
index 0999def..e826203 100644
--- a/starlette/responses.py
+++ b/starlette/responses.py
@@ -359,7 +359,11 @@ class FileResponse(Response):
         http_range = headers.get("range")
         http_if_range = headers.get("if-range")
 
-        if http_range is None or (http_if_range is not None and not self._should_use_range(http_if_range)):
+        if (
+            http_range is None
+            or self.status_code != 200
+            or (http_if_range is not None and not self._should_use_range(http_if_range))
+        ):
             await self._handle_simple(send, send_header_only)
         else:
             try:
-- 
2.43.0


From 93144811f2d73131587a522289697d0c62703829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:55 +0000
Subject: [PATCH 16/65] fix: do not loop for ever on several ranges of a file
 that has shrunk

---
 starlette/responses.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/starlette/responses.py b/starlette/responses.py
index e826203..f6e27a7 100644
--- a/starlette/responses.py
+++ b/starlette/responses.py
@@ -442,6 +442,8 @@ class FileResponse(Response):
                     await file.seek(start)
                     while start < end:
                         chunk = await file.read(min(self.chunk_size, end - start))
+                        if not chunk:
+                            break
                         start += len(chunk)
                         await send({"type": "http.response.body", "body": chunk, "more_body": True})
                     await send({"type": "http.response.body", "body": b"\n", "more_body": True})
-- 
2.43.0


From e756c8b83c045539514e70525689ed7d9877b54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:47 +0000
Subject: [PATCH 17/65] fix: answer 400 to a range with an absurdly long number
 instead of failing

---
 starlette/responses.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/starlette/responses.py b/starlette/responses.py
index f6e27a7..8bf9e5c 100644
--- a/starlette/responses.py
+++ b/starlette/responses.py
@@ -471,14 +471,18 @@ class FileResponse(Response):
         if units != "bytes":
             raise MalformedRangeHeader("Only support bytes range")
 
-        ranges = [
-            (
-                int(_[0]) if _[0] else max(file_size - int(_[1]), 0),
-                int(_[1]) + 1 if _[0] and _[1] and int(_[1]) < file_size else file_size,
-            )
-            for _ in _RANGE_PATTERN.findall(range_)
-            if _ != ("", "")
-        ]
+        try:
+            ranges = [
+                (
+                    int(_[0]) if _[0] else max(file_size - int(_[1]), 0),
+                    int(_[1]) + 1 if _[0] and _[1] and int(_[1]) < file_size else file_size,
+                )
+                for _ in _RANGE_PATTERN.findall(range_)
+                if _ != ("", "")
+            ]
+        except ValueError:
+            # A number with more digits than Python is willing to convert.
+            raise MalformedRangeHeader()
 
         if len(ranges) == 0:
             raise MalformedRangeHeader("Range header: range must be requested")
-- 
2.43.0


From 26ad1942b949fa5e9931efd5d50daf33f087c0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:58 +0000
Subject: [PATCH 18/65] fix: ignore If-Modified-Since when If-None-Match is
 present

---
 starlette/staticfiles.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starlette/staticfiles.py b/starlette/staticfiles.py
index 637da64..f4e95a3 100644
--- a/starlette/staticfiles.py
+++ b/starlette/staticfiles.py
@@ -204,8 +204,8 @@ class StaticFiles:
         try:
             if_none_match = request_headers["if-none-match"]
             etag = response_headers["etag"]
-            if etag in [tag.strip(" W/") for tag in if_none_match.split(",")]:
-                return True
+            # If-Modified-Since is ignored when there is an If-None-Match.
+            return etag in [tag.strip(" W/") for tag in if_none_match.split(",")]
         except KeyError:
             pass
 
-- 
2.43.0


From e23170d4c6925d49eeceea71d8c8daa098f342fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:58 +0000
Subject: [PATCH 19/65] fix: answer 404 to static file paths that can name no
 file

---
 starlette/staticfiles.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/starlette/staticfiles.py b/starlette/staticfiles.py
index f4e95a3..5bea7c3 100644
--- a/starlette/staticfiles.py
+++ b/starlette/staticfiles.py
@@ -123,6 +123,9 @@ class StaticFiles:
                 raise HTTPException(status_code=404)
 
             raise exc
+        except ValueError:
+            # Null bytes or unencodable characters, so it can't be a valid static file.
+            raise HTTPException(status_code=404)
 
         if stat_result and stat.S_ISREG(stat_result.st_mode):
             # We have a static file to serve.
@@ -164,6 +167,11 @@ class StaticFiles:
                 return full_path, os.stat(full_path)
             except (FileNotFoundError, NotADirectoryError):
                 continue
+            except OSError as exc:
+                # A symlink loop leads to no file.
+                if exc.errno == errno.ELOOP:
+                    continue
+                raise
         return "", None
 
     def file_response(
-- 
2.43.0


From 3fad18c37ac8bd031f629449d2f312ae28d0cf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:05 +0000
Subject: [PATCH 20/65] fix: compare multi-dicts whose values cannot be ordered

---
 starlette/datastructures.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/starlette/datastructures.py b/starlette/datastructures.py
index c913863..5c208a3 100644
--- a/starlette/datastructures.py
+++ b/starlette/datastructures.py
@@ -307,7 +307,13 @@ class ImmutableMultiDict(typing.Mapping[_KeyType, _CovariantValueType]):
     def __eq__(self, other: typing.Any) -> bool:
         if not isinstance(other, self.__class__):
             return False
-        return sorted(self._list) == sorted(other._list)
+        # The values need not be orderable (form data holds strings and files).
+        remaining = list(other._list)
+        for item in self._list:
+            if item not in remaining:
+                return False
+            remaining.remove(item)
+        return not remaining
 
     def __repr__(self) -> str:
         class_name = self.__class__.__name__
-- 
2.43.0


From 3b14d0ea0f0d13b23d5dfb911d55c64b9777fa96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:05 +0000
Subject: [PATCH 21/65] fix: keep every Vary header when adding to it

---
 starlette/datastructures.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/starlette/datastructures.py b/starlette/datastructures.py
index 5c208a3..ad90733 100644
--- a/starlette/datastructures.py
+++ b/starlette/datastructures.py
@@ -647,10 +647,7 @@ class MutableHeaders(Headers):
         self._list.append((append_key, append_value))
 
     def add_vary_header(self, vary: str) -> None:
-        existing = self.get("vary")
-        if existing is not None:
-            vary = ", ".join([existing, vary])
-        self["vary"] = vary
+        self["vary"] = ", ".join([*self.getlist("vary"), vary])
 
 
 class State:
-- 
2.43.0


From 7ba73cabb9895c782e2eea40bb0e51b3cc6c358b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:11 +0000
Subject: [PATCH 22/65] fix: keep a WebSocket legal when an exception is
 handled after it was answered

---
 starlette/_exception_handler.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/starlette/_exception_handler.py b/starlette/_exception_handler.py
index 72bc89d..e47e9e3 100644
--- a/starlette/_exception_handler.py
+++ b/starlette/_exception_handler.py
@@ -7,11 +7,17 @@ from starlette.concurrency import run_in_threadpool
 from starlette.exceptions import HTTPException
 from starlette.requests import Request
 from starlette.types import ASGIApp, ExceptionHandler, Message, Receive, Scope, Send
-from starlette.websockets import WebSocket
+from starlette.websockets import WebSocket, WebSocketState
 
 ExceptionHandlers = dict[typing.Any, ExceptionHandler]
 StatusHandlers = dict[int, ExceptionHandler]
 
+websocket_states = {
+    "websocket.accept": WebSocketState.CONNECTED,
+    "websocket.close": WebSocketState.DISCONNECTED,
+    "websocket.http.response.start": WebSocketState.RESPONSE,
+}
+
 
 def _lookup_exception_handler(exc_handlers: ExceptionHandlers, exc: Exception) -> ExceptionHandler | None:
     for cls in type(exc).__mro__:
@@ -36,6 +42,9 @@ def wrap_app_handling_exceptions(app: ASGIApp, conn: Request | WebSocket) -> ASG
 
             if message["type"] == "http.response.start":
                 response_started = True
+            elif message["type"] in websocket_states and isinstance(conn, WebSocket):
+                # The handlers are given this session, not the one the message came from.
+                conn.application_state = websocket_states[message["type"]]
             await send(message)
 
         try:
@@ -60,6 +69,8 @@ def wrap_app_handling_exceptions(app: ASGIApp, conn: Request | WebSocket) -> ASG
             else:
                 response = await run_in_threadpool(handler, conn, exc)  # type: ignore
             if response is not None:
+                if isinstance(conn, WebSocket) and conn.application_state != WebSocketState.CONNECTING:
+                    raise RuntimeError("Caught handled exception, but the WebSocket already got an answer.") from exc
                 await response(scope, receive, sender)
 
     return wrapped_app
-- 
2.43.0


From 2887805f0b89b371f32717de772366530e1be72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:34 +0000
Subject: [PATCH 23/65] fix: show debug responses for exceptions whose text
 cannot be encoded

---
 starlette/middleware/errors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starlette/middleware/errors.py b/starlette/middleware/errors.py
index 76ad776..9e8efd6 100644
--- a/starlette/middleware/errors.py
+++ b/starlette/middleware/errors.py
@@ -252,9 +252,9 @@ class ServerErrorMiddleware:
 
         if "text/html" in accept:
             content = self.generate_html(exc)
-            return HTMLResponse(content, status_code=500)
+            return HTMLResponse(content.encode("utf-8", "backslashreplace"), status_code=500)
         content = self.generate_plain_text(exc)
-        return PlainTextResponse(content, status_code=500)
+        return PlainTextResponse(content.encode("utf-8", "backslashreplace"), status_code=500)
 
     def error_response(self, request: Request, exc: Exception) -> Response:
         return PlainTextResponse("Internal Server Error", status_code=500)
-- 
2.43.0


From da986e74e1f6204c56804cd9b065f057d3112927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:08 +0000
Subject: [PATCH 24/65] fix: decode or refuse every message a websocket
 endpoint may get

A key that is present but None is absent, an empty text is a text, and JSON
bytes that are not UTF-8 are malformed JSON.
---
 starlette/endpoints.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/starlette/endpoints.py b/starlette/endpoints.py
index 1076902..a0533c2 100644
--- a/starlette/endpoints.py
+++ b/starlette/endpoints.py
@@ -85,31 +85,30 @@ class WebSocketEndpoint:
 
     async def decode(self, websocket: WebSocket, message: Message) -> typing.Any:
         if self.encoding == "text":
-            if "text" not in message:
+            if message.get("text") is None:
                 await websocket.close(code=status.WS_1003_UNSUPPORTED_DATA)
                 raise RuntimeError("Expected text websocket messages, but got bytes")
             return message["text"]
 
         elif self.encoding == "bytes":
-            if "bytes" not in message:
+            if message.get("bytes") is None:
                 await websocket.close(code=status.WS_1003_UNSUPPORTED_DATA)
                 raise RuntimeError("Expected bytes websocket messages, but got text")
             return message["bytes"]
 
         elif self.encoding == "json":
-            if message.get("text") is not None:
-                text = message["text"]
-            else:
-                text = message["bytes"].decode("utf-8")
-
             try:
+                if message.get("text") is not None:
+                    text = message["text"]
+                else:
+                    text = message["bytes"].decode("utf-8")
                 return json.loads(text)
-            except json.decoder.JSONDecodeError:
+            except ValueError:
                 await websocket.close(code=status.WS_1003_UNSUPPORTED_DATA)
                 raise RuntimeError("Malformed JSON data received.")
 
         assert self.encoding is None, f"Unsupported 'encoding' attribute {self.encoding}"
-        return message["text"] if message.get("text") else message["bytes"]
+        return message["text"] if message.get("text") is not None else message["bytes"]
 
     async def on_connect(self, websocket: WebSocket) -> None:
         """Override to handle an incoming websocket connection"""
-- 
2.43.0


From 5065da12d4574936e4e9d8400f09d358ffd8779f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:09 +0000
Subject: [PATCH 25/65] fix: answer 405 to a method that only names an
 attribute of the endpoint

---
 starlette/endpoints.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/starlette/endpoints.py b/starlette/endpoints.py
index a0533c2..ac4dba9 100644
--- a/starlette/endpoints.py
+++ b/starlette/endpoints.py
@@ -33,6 +33,9 @@ class HTTPEndpoint:
         handler_name = "get" if request.method == "HEAD" and not hasattr(self, "head") else request.method.lower()
 
         handler: typing.Callable[[Request], typing.Any] = getattr(self, handler_name, self.method_not_allowed)
+        if not callable(handler) or hasattr(HTTPEndpoint, handler_name) or handler_name in ("receive", "send"):
+            # Not a handler, but an attribute every endpoint has, or a name set to `None`.
+            handler = self.method_not_allowed
         is_async = is_async_callable(handler)
         if is_async:
             response = await handler(request)
-- 
2.43.0


From 3e4b5253dd12f416424880dfd9ded86ae776e06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:53 +0000
Subject: [PATCH 26/65] fix: pass on every message of the application in
 GZipMiddleware, and leave its headers alone

Messages other than start and body were swallowed, a start without headers or
a body message without body failed, and the header list of a Response object
sent twice was changed in place.
---
 starlette/middleware/gzip.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/starlette/middleware/gzip.py b/starlette/middleware/gzip.py
index c7fd5b7..04eda9c 100644
--- a/starlette/middleware/gzip.py
+++ b/starlette/middleware/gzip.py
@@ -50,7 +50,8 @@ class IdentityResponder:
         if message_type == "http.response.start":
             # Don't send the initial message until we've determined how to
             # modify the outgoing headers correctly.
-            self.initial_message = message
+            # Its list of headers may be shared with other responses, so it is copied.
+            self.initial_message = {**message, "headers": list(message.get("headers", []))}
             headers = Headers(raw=self.initial_message["headers"])
             self.content_encoding_set = "content-encoding" in headers
             self.content_type_is_excluded = headers.get("content-type", "").startswith(DEFAULT_EXCLUDED_CONTENT_TYPES)
@@ -69,37 +70,42 @@ class IdentityResponder:
                 await self.send(message)
             elif not more_body:
                 # Standard response.
-                body = self.apply_compression(body, more_body=False)
+                compressed = self.apply_compression(body, more_body=False)
 
                 headers = MutableHeaders(raw=self.initial_message["headers"])
                 headers.add_vary_header("Accept-Encoding")
-                if body != message["body"]:
+                if compressed != body:
                     headers["Content-Encoding"] = self.content_encoding
-                    headers["Content-Length"] = str(len(body))
-                    message["body"] = body
+                    headers["Content-Length"] = str(len(compressed))
+                    message = {**message, "body": compressed}
 
                 await self.send(self.initial_message)
                 await self.send(message)
             else:
                 # Initial body in streaming response.
-                body = self.apply_compression(body, more_body=True)
+                compressed = self.apply_compression(body, more_body=True)
 
                 headers = MutableHeaders(raw=self.initial_message["headers"])
                 headers.add_vary_header("Accept-Encoding")
-                if body != message["body"]:
+                if compressed != body:
                     headers["Content-Encoding"] = self.content_encoding
                     del headers["Content-Length"]
-                    message["body"] = body
+                    message = {**message, "body": compressed}
 
                 await self.send(self.initial_message)
                 await self.send(message)
-        elif message_type == "http.response.body":  # pragma: no branch
+        elif message_type == "http.response.body":
             # Remaining body in streaming response.
             body = message.get("body", b"")
             more_body = message.get("more_body", False)
 
-            message["body"] = self.apply_compression(body, more_body=more_body)
-
+            await self.send({**message, "body": self.apply_compression(body, more_body=more_body)})
+        elif message_type == "http.response.pathsend":
+            # The server reads the file by itself.
+            self.started = True
+            await self.send(self.initial_message)
+            await self.send(message)
+        else:
             await self.send(message)
 
     def apply_compression(self, body: bytes, *, more_body: bool) -> bytes:
-- 
2.43.0


From cfcc6c86bdeb9a4600a73c3df9d1a856b642c2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:53 +0000
Subject: [PATCH 27/65] fix: take Accept-Encoding apart before compressing a
 response

gzip;q=0 and codings whose names contain gzip were taken for gzip.
---
 starlette/middleware/gzip.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/starlette/middleware/gzip.py b/starlette/middleware/gzip.py
index 04eda9c..70aa379 100644
--- a/starlette/middleware/gzip.py
+++ b/starlette/middleware/gzip.py
@@ -1,5 +1,6 @@
 import gzip
 import io
+import re
 import typing
 
 from starlette.datastructures import Headers, MutableHeaders
@@ -21,7 +22,7 @@ class GZipMiddleware:
 
         headers = Headers(scope=scope)
         responder: ASGIApp
-        if "gzip" in headers.get("Accept-Encoding", ""):
+        if accepts_gzip(headers):
             responder = GZipResponder(self.app, self.minimum_size, compresslevel=self.compresslevel)
         else:
             responder = IdentityResponder(self.app, self.minimum_size)
@@ -29,6 +30,14 @@ class GZipMiddleware:
         await responder(scope, receive, send)
 
 
+def accepts_gzip(headers: Headers) -> bool:
+    for item in headers.get("Accept-Encoding", "").split(","):
+        coding, *parameters = [part.strip() for part in item.split(";")]
+        if coding.lower() == "gzip":
+            return not any(re.fullmatch(r"q\s*=\s*0(\.0*)?", parameter, re.IGNORECASE) for parameter in parameters)
+    return False
+
+
 class IdentityResponder:
     content_encoding: str
 
-- 
2.43.0


From 453e4916c8381b5b36f3c44194874fad1ad9af81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:35 +0000
Subject: [PATCH 28/65] fix: leave the application's message alone in
 CORSMiddleware

An application sending the same message for several requests had the grants
for one origin sent to all later ones.
---
 starlette/middleware/cors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/starlette/middleware/cors.py b/starlette/middleware/cors.py
index 6150269..46f5ea3 100644
--- a/starlette/middleware/cors.py
+++ b/starlette/middleware/cors.py
@@ -148,7 +148,8 @@ class CORSMiddleware:
             await send(message)
             return
 
-        message.setdefault("headers", [])
+        # The message may be sent again for another request, so it is copied.
+        message = {**message, "headers": list(message.get("headers", []))}
         headers = MutableHeaders(scope=message)
         headers.update(self.simple_headers)
         origin = request_headers["Origin"]
-- 
2.43.0


From 4342dd6fb4ffc98366fbbfe21f0d994fbb77bc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:09 +0000
Subject: [PATCH 29/65] fix: check every Access-Control-Request-Headers line of
 a preflight request

---
 starlette/middleware/cors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/middleware/cors.py b/starlette/middleware/cors.py
index 46f5ea3..0e9934d 100644
--- a/starlette/middleware/cors.py
+++ b/starlette/middleware/cors.py
@@ -104,7 +104,7 @@ class CORSMiddleware:
     def preflight_response(self, request_headers: Headers) -> Response:
         requested_origin = request_headers["origin"]
         requested_method = request_headers["access-control-request-method"]
-        requested_headers = request_headers.get("access-control-request-headers")
+        requested_headers = ", ".join(request_headers.getlist("access-control-request-headers")) or None
 
         headers = dict(self.preflight_headers)
         failures = []
-- 
2.43.0


From a564c43167ac63d4d6a1627f0395dae2c2041d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:33 +0000
Subject: [PATCH 30/65] fix: refuse malformed Host headers in
 TrustedHostMiddleware

The host was taken to be what precedes the first colon, so that
'evil.com/.example.com' and 'example.com:@evil.com' passed for allowed hosts,
while request.url had evil.com for its host.
---
 starlette/middleware/trustedhost.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/starlette/middleware/trustedhost.py b/starlette/middleware/trustedhost.py
index 2d1c999..a5d1f42 100644
--- a/starlette/middleware/trustedhost.py
+++ b/starlette/middleware/trustedhost.py
@@ -1,11 +1,16 @@
 from __future__ import annotations
 
+import re
 import typing
 
 from starlette.datastructures import URL, Headers
 from starlette.responses import PlainTextResponse, RedirectResponse, Response
 from starlette.types import ASGIApp, Receive, Scope, Send
 
+# A host and an optional port: anything else in a Host header would make other
+# parts of the URL of the request out of it.
+HOST_HEADER = re.compile(r"(\[[0-9A-Fa-f:.]+\]|[^\[\]/?#@\\:\s]*)(?::[0-9]*)?")
+
 ENFORCE_DOMAIN_WILDCARD = "Domain wildcard patterns must be like '*.example.com'."
 
 
@@ -37,10 +42,11 @@ class TrustedHostMiddleware:
             return
 
         headers = Headers(scope=scope)
-        host = headers.get("host", "").split(":")[0]
+        match = HOST_HEADER.fullmatch(headers.get("host", ""))
+        host = match.group(1) if match else ""
         is_valid_host = False
         found_www_redirect = False
-        for pattern in self.allowed_hosts:
+        for pattern in self.allowed_hosts if match else []:
             if host == pattern or (pattern.startswith("*") and host.endswith(pattern[1:])):
                 is_valid_host = True
                 break
-- 
2.43.0


From bfd91bc09f8e05f2653cef73db2d6a7465127d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:33 +0000
Subject: [PATCH 31/65] fix: keep the brackets of an IPv6 host when redirecting
 to https

---
 starlette/middleware/httpsredirect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/middleware/httpsredirect.py b/starlette/middleware/httpsredirect.py
index a835906..5df2097 100644
--- a/starlette/middleware/httpsredirect.py
+++ b/starlette/middleware/httpsredirect.py
@@ -11,7 +11,7 @@ class HTTPSRedirectMiddleware:
         if scope["type"] in ("http", "websocket") and scope["scheme"] in ("http", "ws"):
             url = URL(scope=scope)
             redirect_scheme = {"http": "https", "ws": "wss"}[url.scheme]
-            netloc = url.hostname if url.port in (80, 443) else url.netloc
+            netloc = url.netloc.rpartition(":")[0] if url.port in (80, 443) else url.netloc
             url = url.replace(scheme=redirect_scheme, netloc=netloc)
             response = RedirectResponse(url, status_code=307)
             await response(scope, receive, send)
-- 
2.43.0


From 8b1979aaafbadd22134b87b30510e83d0ab5a65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:02 +0000
Subject: [PATCH 32/65] fix: close uploaded files on any error while parsing a
 multipart form

---
 starlette/formparsers.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/starlette/formparsers.py b/starlette/formparsers.py
index 4551d68..00b5712 100644
--- a/starlette/formparsers.py
+++ b/starlette/formparsers.py
@@ -265,11 +265,12 @@ class MultiPartParser:
                     await part.file.seek(0)
                 self._file_parts_to_write.clear()
                 self._file_parts_to_finish.clear()
-        except MultiPartException as exc:
-            # Close all the files if there was an error.
+            parser.finalize()
+        except BaseException:
+            # Close all the files if there was an error, whichever it was: the
+            # client may have left, or the body may be malformed.
             for file in self._files_to_close_on_error:
                 file.close()
-            raise exc
+            raise
 
-        parser.finalize()
         return FormData(self.items)
-- 
2.43.0


From edab8020a674db79097d0c55e9452b72cdddc4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:41 +0000
Subject: [PATCH 33/65] fix: close the file of a multipart part the body ends
 in

---
 starlette/formparsers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/starlette/formparsers.py b/starlette/formparsers.py
index 00b5712..7ee3d92 100644
--- a/starlette/formparsers.py
+++ b/starlette/formparsers.py
@@ -273,4 +273,8 @@ class MultiPartParser:
                 file.close()
             raise
 
+        unfinished = self._current_part.file
+        if unfinished is not None and all(value is not unfinished for _, value in self.items):
+            # The body ended within a file, which is not part of the form.
+            await unfinished.close()
         return FormData(self.items)
-- 
2.43.0


From 6e40e88aa05916975cce3d64d9a9856dd5e9acaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:08 +0000
Subject: [PATCH 34/65] fix: leave the application's message alone in
 SessionMiddleware

An application sending the same message for several requests had the session
cookie of one client sent to others; one without headers got a KeyError.
---
 starlette/middleware/sessions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/starlette/middleware/sessions.py b/starlette/middleware/sessions.py
index 5f9fcd8..7ff6888 100644
--- a/starlette/middleware/sessions.py
+++ b/starlette/middleware/sessions.py
@@ -56,6 +56,8 @@ class SessionMiddleware:
 
         async def send_wrapper(message: Message) -> None:
             if message["type"] == "http.response.start":
+                # The message is the application's, and may be sent again.
+                message = {**message, "headers": list(message.get("headers", []))}
                 if scope["session"]:
                     # We have session data to persist.
                     data = b64encode(json.dumps(scope["session"]).encode("utf-8"))
-- 
2.43.0


From ef2b89baab1d077f5f7ba7c0a3a20eabe71a50cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:18 +0000
Subject: [PATCH 35/65] fix: report a failing cast of any callable as
 ValueError

A cast without a __name__ (a partial, an instance) raised AttributeError.
---
 starlette/config.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/starlette/config.py b/starlette/config.py
index ca15c56..2b3a4ff 100644
--- a/starlette/config.py
+++ b/starlette/config.py
@@ -135,4 +135,6 @@ class Config:
         try:
             return cast(value)
         except (TypeError, ValueError):
-            raise ValueError(f"Config '{key}' has value '{value}'. Not a valid {cast.__name__}.")
+            # A cast may be any callable, with or without a name.
+            name = getattr(cast, "__name__", repr(cast))
+            raise ValueError(f"Config '{key}' has value '{value}'. Not a valid {name}.")
-- 
2.43.0


From e02c5aa3a92d0cc641975c1738f8964c63a43f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:12 +0000
Subject: [PATCH 36/65] fix: test client percent-decodes the path only once

---
 starlette/testclient.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/starlette/testclient.py b/starlette/testclient.py
index d54025e..7158d99 100644
--- a/starlette/testclient.py
+++ b/starlette/testclient.py
@@ -10,7 +10,7 @@ import typing
 import warnings
 from concurrent.futures import Future
 from types import GeneratorType
-from urllib.parse import unquote, urljoin
+from urllib.parse import urljoin
 
 import anyio
 import anyio.abc
@@ -243,7 +243,7 @@ class _TestClientTransport(httpx.BaseTransport):
                 subprotocols = [value.strip() for value in subprotocol.split(",")]
             scope = {
                 "type": "websocket",
-                "path": unquote(path),
+                "path": path,
                 "raw_path": raw_path.split(b"?", 1)[0],
                 "root_path": self.root_path,
                 "scheme": scheme,
@@ -262,7 +262,7 @@ class _TestClientTransport(httpx.BaseTransport):
             "type": "http",
             "http_version": "1.1",
             "method": request.method,
-            "path": unquote(path),
+            "path": path,
             "raw_path": raw_path.split(b"?", 1)[0],
             "root_path": self.root_path,
             "scheme": scheme,
-- 
2.43.0


From 01187cb069640f007c95db103afe72cbf1bdaf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:12 +0000
Subject: [PATCH 37/65] fix: test client accepts IPv6 hosts

---
 starlette/testclient.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/starlette/testclient.py b/starlette/testclient.py
index 7158d99..ebd6ccc 100644
--- a/starlette/testclient.py
+++ b/starlette/testclient.py
@@ -208,19 +208,14 @@ class _TestClientTransport(httpx.BaseTransport):
 
     def handle_request(self, request: httpx.Request) -> httpx.Response:
         scheme = request.url.scheme
-        netloc = request.url.netloc.decode(encoding="ascii")
         path = request.url.path
         raw_path = request.url.raw_path
         query = request.url.query.decode(encoding="ascii")
 
         default_port = {"http": 80, "ws": 80, "https": 443, "wss": 443}[scheme]
 
-        if ":" in netloc:
-            host, port_string = netloc.split(":", 1)
-            port = int(port_string)
-        else:
-            host = netloc
-            port = default_port
+        host = request.url.raw_host.decode(encoding="ascii")
+        port = default_port if request.url.port is None else request.url.port
 
         # Include the 'host' header.
         if "host" in request.headers:
-- 
2.43.0


From c2617f01d7f7d1bcc557b48a2156c613da8a3bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:12 +0000
Subject: [PATCH 38/65] fix: test client sends request header values as they
 are

---
 starlette/testclient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/testclient.py b/starlette/testclient.py
index ebd6ccc..b3f4469 100644
--- a/starlette/testclient.py
+++ b/starlette/testclient.py
@@ -226,7 +226,7 @@ class _TestClientTransport(httpx.BaseTransport):
             headers = [(b"host", (f"{host}:{port}").encode())]
 
         # Include other request headers.
-        headers += [(key.lower().encode(), value.encode()) for key, value in request.headers.multi_items()]
+        headers += [(key.lower(), value) for key, value in request.headers.raw]
 
         scope: dict[str, typing.Any]
 
-- 
2.43.0


From d3b0eddc1322f02fdedf236f97993511c0a239eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:12 +0000
Subject: [PATCH 39/65] fix: test client returns response headers that are not
 UTF-8

---
 starlette/testclient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/testclient.py b/starlette/testclient.py
index b3f4469..b092c88 100644
--- a/starlette/testclient.py
+++ b/starlette/testclient.py
@@ -310,7 +310,7 @@ class _TestClientTransport(httpx.BaseTransport):
             if message["type"] == "http.response.start":
                 assert not response_started, 'Received multiple "http.response.start" messages.'
                 raw_kwargs["status_code"] = message["status"]
-                raw_kwargs["headers"] = [(key.decode(), value.decode()) for key, value in message.get("headers", [])]
+                raw_kwargs["headers"] = [(bytes(key), bytes(value)) for key, value in message.get("headers", [])]
                 response_started = True
             elif message["type"] == "http.response.body":
                 assert response_started, 'Received "http.response.body" without "http.response.start".'
-- 
2.43.0


From cdbd11402d58bcf763bd0ccdb5b396f0a8ab8198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:12 +0000
Subject: [PATCH 40/65] fix: websocket_connect leaves the headers it is given
 alone

---
 starlette/testclient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/testclient.py b/starlette/testclient.py
index b092c88..bc7dd66 100644
--- a/starlette/testclient.py
+++ b/starlette/testclient.py
@@ -637,7 +637,7 @@ class TestClient(httpx.Client):
         **kwargs: typing.Any,
     ) -> WebSocketTestSession:
         url = urljoin("ws://testserver", url)
-        headers = kwargs.get("headers", {})
+        headers = httpx.Headers(kwargs.get("headers"))
         headers.setdefault("connection", "upgrade")
         headers.setdefault("sec-websocket-key", "testserver==")
         headers.setdefault("sec-websocket-version", "13")
-- 
2.43.0


From fe69e7404d4a7d297a08b5a89433a6b1d9df8637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:12 +0000
Subject: [PATCH 41/65] fix: test client raises when the application reports a
 failed startup without raising

---
 starlette/testclient.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/starlette/testclient.py b/starlette/testclient.py
index bc7dd66..7378e3f 100644
--- a/starlette/testclient.py
+++ b/starlette/testclient.py
@@ -708,6 +708,7 @@ class TestClient(httpx.Client):
         )
         if message["type"] == "lifespan.startup.failed":
             await receive()
+            raise RuntimeError(f"Application startup failed: {message.get('message', '')}")
 
     async def wait_shutdown(self) -> None:
         async def receive() -> typing.Any:
-- 
2.43.0


From 5d531e9d426fde11115521ea3986c16f5fbee8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:12 +0000
Subject: [PATCH 42/65] fix: test client accepts denial responses without
 headers or body

---
 starlette/testclient.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starlette/testclient.py b/starlette/testclient.py
index 7378e3f..77b5fc2 100644
--- a/starlette/testclient.py
+++ b/starlette/testclient.py
@@ -136,12 +136,12 @@ class WebSocketTestSession:
             raise WebSocketDisconnect(code=message.get("code", 1000), reason=message.get("reason", ""))
         elif message["type"] == "websocket.http.response.start":
             status_code: int = message["status"]
-            headers: list[tuple[bytes, bytes]] = message["headers"]
+            headers: list[tuple[bytes, bytes]] = message.get("headers", [])
             body: list[bytes] = []
             while True:
                 message = self.receive()
                 assert message["type"] == "websocket.http.response.body"
-                body.append(message["body"])
+                body.append(message.get("body", b""))
                 if not message.get("more_body", False):
                     break
             raise WebSocketDenialResponse(status_code=status_code, headers=headers, content=b"".join(body))
-- 
2.43.0


From 4a5f8bcb3a75771fdf86cf533f42fcba23d8eac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:40 +0000
Subject: [PATCH 43/65] fix: WSGIMiddleware lets the application's own
 exception propagate, not a group

---
 starlette/middleware/wsgi.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/starlette/middleware/wsgi.py b/starlette/middleware/wsgi.py
index 6e0a3fa..db2334c 100644
--- a/starlette/middleware/wsgi.py
+++ b/starlette/middleware/wsgi.py
@@ -9,6 +9,7 @@ import warnings
 import anyio
 from anyio.abc import ObjectReceiveStream, ObjectSendStream
 
+from starlette._utils import collapse_excgroups
 from starlette.types import Receive, Scope, Send
 
 warnings.warn(
@@ -102,10 +103,11 @@ class WSGIResponder:
             more_body = message.get("more_body", False)
         environ = build_environ(self.scope, body)
 
-        async with anyio.create_task_group() as task_group:
-            task_group.start_soon(self.sender, send)
-            async with self.stream_send:
-                await anyio.to_thread.run_sync(self.wsgi, environ, self.start_response)
+        with collapse_excgroups():
+            async with anyio.create_task_group() as task_group:
+                task_group.start_soon(self.sender, send)
+                async with self.stream_send:
+                    await anyio.to_thread.run_sync(self.wsgi, environ, self.start_response)
         if self.exc_info is not None:
             raise self.exc_info[0].with_traceback(self.exc_info[1], self.exc_info[2])
 
-- 
2.43.0


From b2c8178e66876e6ad1d668a7445c91ec8e2f5b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:40 +0000
Subject: [PATCH 44/65] fix: WSGIMiddleware passes on latin-1 response headers

---
 starlette/middleware/wsgi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/middleware/wsgi.py b/starlette/middleware/wsgi.py
index db2334c..dc975f0 100644
--- a/starlette/middleware/wsgi.py
+++ b/starlette/middleware/wsgi.py
@@ -128,7 +128,7 @@ class WSGIResponder:
             status_code_string, _ = status.split(" ", 1)
             status_code = int(status_code_string)
             headers = [
-                (name.strip().encode("ascii").lower(), value.strip().encode("ascii"))
+                (name.strip().encode("latin1").lower(), value.strip().encode("latin1"))
                 for name, value in response_headers
             ]
             anyio.from_thread.run(
-- 
2.43.0


From a1d648abb35fe247228ddab3a27b5a00e56f46ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:40 +0000
Subject: [PATCH 45/65] fix: WSGIMiddleware accepts query strings that are not
 ASCII

---
 starlette/middleware/wsgi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/middleware/wsgi.py b/starlette/middleware/wsgi.py
index dc975f0..a1d26e1 100644
--- a/starlette/middleware/wsgi.py
+++ b/starlette/middleware/wsgi.py
@@ -33,7 +33,7 @@ def build_environ(scope: Scope, body: bytes) -> dict[str, typing.Any]:
         "REQUEST_METHOD": scope["method"],
         "SCRIPT_NAME": script_name,
         "PATH_INFO": path_info,
-        "QUERY_STRING": scope["query_string"].decode("ascii"),
+        "QUERY_STRING": scope["query_string"].decode("latin1"),
         "SERVER_PROTOCOL": f"HTTP/{scope['http_version']}",
         "wsgi.version": (1, 0),
         "wsgi.url_scheme": scope.get("scheme", "http"),
-- 
2.43.0


From 5c26c3ec61fb76e35b47a5aa8ac2c23fc437dc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:40 +0000
Subject: [PATCH 46/65] fix: WSGIMiddleware strips the script name only as
 whole path segments

---
 starlette/middleware/wsgi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/middleware/wsgi.py b/starlette/middleware/wsgi.py
index a1d26e1..d2c52ea 100644
--- a/starlette/middleware/wsgi.py
+++ b/starlette/middleware/wsgi.py
@@ -26,7 +26,7 @@ def build_environ(scope: Scope, body: bytes) -> dict[str, typing.Any]:
 
     script_name = scope.get("root_path", "").encode("utf8").decode("latin1")
     path_info = scope["path"].encode("utf8").decode("latin1")
-    if path_info.startswith(script_name):
+    if path_info.startswith(script_name) and path_info[len(script_name) :][:1] in ("", "/"):
         path_info = path_info[len(script_name) :]
 
     environ = {
-- 
2.43.0


From 290ee0bc7bcb57153445f078299581825d995b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:54 +0000
Subject: [PATCH 47/65] fix: WSGIMiddleware closes the iterable the application
 returns

---
 starlette/middleware/wsgi.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/starlette/middleware/wsgi.py b/starlette/middleware/wsgi.py
index d2c52ea..e9db3c5 100644
--- a/starlette/middleware/wsgi.py
+++ b/starlette/middleware/wsgi.py
@@ -145,10 +145,15 @@ class WSGIResponder:
         environ: dict[str, typing.Any],
         start_response: typing.Callable[..., typing.Any],
     ) -> None:
-        for chunk in self.app(environ, start_response):
-            anyio.from_thread.run(
-                self.stream_send.send,
-                {"type": "http.response.body", "body": chunk, "more_body": True},
-            )
+        chunks = self.app(environ, start_response)
+        try:
+            for chunk in chunks:
+                anyio.from_thread.run(
+                    self.stream_send.send,
+                    {"type": "http.response.body", "body": chunk, "more_body": True},
+                )
+        finally:
+            if hasattr(chunks, "close"):
+                chunks.close()
 
         anyio.from_thread.run(self.stream_send.send, {"type": "http.response.body", "body": b""})
-- 
2.43.0


From b1039b91206a7888852739b5c49adf53ca3efae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:56 +0000
Subject: [PATCH 48/65] fix: keep tabs and line ends of a request path in its
 URL

---
 starlette/datastructures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/datastructures.py b/starlette/datastructures.py
index ad90733..edf6313 100644
--- a/starlette/datastructures.py
+++ b/starlette/datastructures.py
@@ -33,7 +33,7 @@ class URL:
             scheme = scope.get("scheme", "http")
             server = scope.get("server", None)
             # The path of a scope is decoded: these characters would not be part of the path of a URL.
-            path = scope["path"].replace("%", "%25").replace("?", "%3F").replace("#", "%23")
+            path = scope["path"].translate({ord(char): f"%{ord(char):02X}" for char in "%?#\t\r\n"})
             query_string = scope.get("query_string", b"")
 
             host_header = None
-- 
2.43.0


From deb014bdbfb99ccd68223e4a068b74bc08f0952c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:56 +0000
Subject: [PATCH 49/65] fix: the URL of a request to an IPv6 address or a
 socket file without Host header

---
 starlette/datastructures.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/starlette/datastructures.py b/starlette/datastructures.py
index edf6313..ddbb5ff 100644
--- a/starlette/datastructures.py
+++ b/starlette/datastructures.py
@@ -44,10 +44,12 @@ class URL:
 
             if host_header is not None:
                 url = f"{scheme}://{host_header}{path}"
-            elif server is None:
+            elif server is None or server[1] is None:
                 url = path
             else:
                 host, port = server
+                if ":" in host:
+                    host = f"[{host}]"
                 default_port = {"http": 80, "https": 443, "ws": 80, "wss": 443}[scheme]
                 if port == default_port:
                     url = f"{scheme}://{host}{path}"
-- 
2.43.0


From c97474ac23c92468a5811e7bbc89dee8148ef74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:56 +0000
Subject: [PATCH 50/65] fix: URL.replace of URLs without a host and to IPv6
 hosts

---
 starlette/datastructures.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/starlette/datastructures.py b/starlette/datastructures.py
index ddbb5ff..7f052f0 100644
--- a/starlette/datastructures.py
+++ b/starlette/datastructures.py
@@ -121,9 +121,12 @@ class URL:
                 netloc = self.netloc
                 _, _, hostname = netloc.rpartition("@")
 
-                if hostname[-1] != "]":
+                if not hostname.endswith("]"):
                     hostname = hostname.rsplit(":", 1)[0]
 
+            elif hostname.count(":") > 1 and not hostname.startswith("["):
+                hostname = f"[{hostname}]"
+
             netloc = hostname
             if port is not None:
                 netloc += f":{port}"
-- 
2.43.0


From 8708377a5787a8f63a5bf4fc45c9c5f082d9a9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:56 +0000
Subject: [PATCH 51/65] fix: editing query parameters keeps the others' bytes
 that are not UTF-8

---
 starlette/datastructures.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/starlette/datastructures.py b/starlette/datastructures.py
index 7f052f0..f859b75 100644
--- a/starlette/datastructures.py
+++ b/starlette/datastructures.py
@@ -142,9 +142,9 @@ class URL:
         return self.__class__(components.geturl())
 
     def include_query_params(self, **kwargs: typing.Any) -> URL:
-        params = MultiDict(parse_qsl(self.query, keep_blank_values=True))
+        params = MultiDict(parse_qsl(self.query, keep_blank_values=True, errors="surrogateescape"))
         params.update({str(key): str(value) for key, value in kwargs.items()})
-        query = urlencode(params.multi_items())
+        query = urlencode(params.multi_items(), errors="surrogateescape")
         return self.replace(query=query)
 
     def replace_query_params(self, **kwargs: typing.Any) -> URL:
@@ -154,10 +154,10 @@ class URL:
     def remove_query_params(self, keys: str | typing.Sequence[str]) -> URL:
         if isinstance(keys, str):
             keys = [keys]
-        params = MultiDict(parse_qsl(self.query, keep_blank_values=True))
+        params = MultiDict(parse_qsl(self.query, keep_blank_values=True, errors="surrogateescape"))
         for key in keys:
             params.pop(key, None)
-        query = urlencode(params.multi_items())
+        query = urlencode(params.multi_items(), errors="surrogateescape")
         return self.replace(query=query)
 
     def __eq__(self, other: typing.Any) -> bool:
-- 
2.43.0


From 99f59772d371327c9c6818d69ec99716eafcd4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 52/65] fix: read cookies from every Cookie header of a request

---
 starlette/requests.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/starlette/requests.py b/starlette/requests.py
index 7d3d6e3..24a1030 100644
--- a/starlette/requests.py
+++ b/starlette/requests.py
@@ -139,10 +139,9 @@ class HTTPConnection(typing.Mapping[str, typing.Any]):
     def cookies(self) -> dict[str, str]:
         if not hasattr(self, "_cookies"):
             cookies: dict[str, str] = {}
-            cookie_header = self.headers.get("cookie")
-
-            if cookie_header:
-                cookies = cookie_parser(cookie_header)
+            # HTTP/2 allows the cookies to be split into several header fields.
+            for cookie_header in self.headers.getlist("cookie"):
+                cookies.update(cookie_parser(cookie_header))
             self._cookies = cookies
         return self._cookies
 
-- 
2.43.0


From 7651abceecfc1f7fa621d4c19c7a57f603b0ac29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:11 +0000
Subject: [PATCH 53/65] fix: relay file responses sent by path, and responses
 without headers, through BaseHTTPMiddleware

---
 starlette/middleware/base.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/starlette/middleware/base.py b/starlette/middleware/base.py
index 113f9b6..cb62653 100644
--- a/starlette/middleware/base.py
+++ b/starlette/middleware/base.py
@@ -6,11 +6,12 @@ import anyio
 
 from starlette._utils import collapse_excgroups
 from starlette.requests import ClientDisconnect, Request
-from starlette.responses import AsyncContentStream, Response
+from starlette.responses import Response
 from starlette.types import ASGIApp, Message, Receive, Scope, Send
 
 RequestResponseEndpoint = typing.Callable[[Request], typing.Awaitable[Response]]
 DispatchFunction = typing.Callable[[Request, RequestResponseEndpoint], typing.Awaitable[Response]]
+BodyStreamGenerator = typing.AsyncGenerator[typing.Union[bytes, typing.MutableMapping[str, typing.Any]], None]
 T = typing.TypeVar("T")
 
 
@@ -163,10 +164,14 @@ class BaseHTTPMiddleware:
 
             assert message["type"] == "http.response.start"
 
-            async def body_stream() -> typing.AsyncGenerator[bytes, None]:
+            async def body_stream() -> BodyStreamGenerator:
                 nonlocal app_exc_raised
 
                 async for message in recv_stream:
+                    if message["type"] == "http.response.pathsend":
+                        # The server sends the file, there is no body to stream.
+                        yield message
+                        return
                     assert message["type"] == "http.response.body"
                     body = message.get("body", b"")
                     if body:
@@ -179,7 +184,7 @@ class BaseHTTPMiddleware:
                     raise app_exc
 
             response = _StreamingResponse(status_code=message["status"], content=body_stream(), info=info)
-            response.raw_headers = message["headers"]
+            response.raw_headers = list(message.get("headers", []))
             return response
 
         streams: anyio.create_memory_object_stream[Message] = anyio.create_memory_object_stream()
@@ -201,7 +206,7 @@ class BaseHTTPMiddleware:
 class _StreamingResponse(Response):
     def __init__(
         self,
-        content: AsyncContentStream,
+        content: typing.AsyncIterable[bytes | str | memoryview | Message],
         status_code: int = 200,
         headers: typing.Mapping[str, str] | None = None,
         media_type: str | None = None,
@@ -225,10 +230,17 @@ class _StreamingResponse(Response):
             }
         )
 
+        complete = False
         async for chunk in self.body_iterator:
+            if isinstance(chunk, dict):
+                # A message which completes the response (pathsend) instead of a body.
+                complete = True
+                await send(chunk)
+                continue
             await send({"type": "http.response.body", "body": chunk, "more_body": True})
 
-        await send({"type": "http.response.body", "body": b"", "more_body": False})
+        if not complete:
+            await send({"type": "http.response.body", "body": b"", "more_body": False})
 
         if self.background:
             await self.background()
-- 
2.43.0


From e8d4f1a5d92f6327ea30e6e68ce097a91ea2c9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:42 +0000
Subject: [PATCH 54/65] fix: file responses can be sent again, for another
 range or after the file changed

---
 starlette/responses.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/starlette/responses.py b/starlette/responses.py
index 8bf9e5c..cea05dd 100644
--- a/starlette/responses.py
+++ b/starlette/responses.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import copy
 import hashlib
 import http.cookies
 import json
@@ -341,6 +342,14 @@ class FileResponse(Response):
         self.headers.setdefault("etag", etag)
 
     async def __call__(self, scope: Scope, receive: Receive, send: Send) -> None:
+        # Some headers depend on the request and on the state of the file, and must
+        # not be there when the response is sent again.
+        response = copy.copy(self)
+        response.raw_headers = list(self.raw_headers)
+        response.__dict__.pop("_headers", None)
+        await response._send_file(scope, receive, send)
+
+    async def _send_file(self, scope: Scope, receive: Receive, send: Send) -> None:
         send_header_only: bool = scope["method"].upper() == "HEAD"
         if self.stat_result is None:
             try:
-- 
2.43.0


From 10728c36693da2733a794833071a47507c57fb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:43 +0000
Subject: [PATCH 55/65] fix: template responses copy the context they are
 given, which may be None

A context shared by several calls kept the request (and the additions of the
context processors) of the first one, so later pages linked to its host.
---
 starlette/templating.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/starlette/templating.py b/starlette/templating.py
index f764858..4d7ac86 100644
--- a/starlette/templating.py
+++ b/starlette/templating.py
@@ -172,7 +172,7 @@ class Jinja2Templates:
                 media_type = args[4] if len(args) > 4 else kwargs.get("media_type")
                 background = args[5] if len(args) > 5 else kwargs.get("background")
 
-                if "request" not in context:
+                if "request" not in (context or {}):
                     raise ValueError('context must include a "request" key')
                 request = context["request"]
             else:  # the first argument is a request instance (new style)
@@ -190,10 +190,10 @@ class Jinja2Templates:
                     'Replace `TemplateResponse(name, {"context": context})` by `TemplateResponse(request, name)`.',
                     DeprecationWarning,
                 )
-                if "request" not in kwargs.get("context", {}):
+                if "request" not in (kwargs.get("context") or {}):
                     raise ValueError('context must include a "request" key')
 
-            context = kwargs.get("context", {})
+            context = kwargs.get("context") or {}
             request = kwargs.get("request", context.get("request"))
             name = typing.cast(str, kwargs["name"])
             status_code = kwargs.get("status_code", 200)
@@ -201,6 +201,8 @@ class Jinja2Templates:
             media_type = kwargs.get("media_type")
             background = kwargs.get("background")
 
+        # The context given may be shared with other requests, so it is copied.
+        context = dict(context or {})
         context.setdefault("request", request)
         for context_processor in self.context_processors:
             context.update(context_processor(request))
-- 
2.43.0


From a6e51bd14e3c1ec3d243ca6b5ad00802ae7b5e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:43 +0000
Subject: [PATCH 56/65] fix: template responses send debug messages only to a
 server that takes them

---
 starlette/templating.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/starlette/templating.py b/starlette/templating.py
index 4d7ac86..f8c7d27 100644
--- a/starlette/templating.py
+++ b/starlette/templating.py
@@ -41,8 +41,7 @@ class _TemplateResponse(HTMLResponse):
         super().__init__(content, status_code, headers, media_type, background)
 
     async def __call__(self, scope: Scope, receive: Receive, send: Send) -> None:
-        request = self.context.get("request", {})
-        extensions = request.get("extensions", {})
+        extensions = scope.get("extensions", {})
         if "http.response.debug" in extensions:  # pragma: no branch
             await send(
                 {
-- 
2.43.0


From 5304fdb5a3ba3f4f6b43949873412488db5cd444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:05 +0000
Subject: [PATCH 57/65] fix: report a failed startup whose error the lifespan
 context suppressed

---
 starlette/routing.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/starlette/routing.py b/starlette/routing.py
index 0ee324b..b1a433e 100644
--- a/starlette/routing.py
+++ b/starlette/routing.py
@@ -711,7 +711,11 @@ class Router:
                 await send({"type": "lifespan.startup.failed", "message": exc_text})
             raise
         else:
-            await send({"type": "lifespan.shutdown.complete"})
+            if started:
+                await send({"type": "lifespan.shutdown.complete"})
+            else:
+                # The lifespan context suppressed the error.
+                await send({"type": "lifespan.startup.failed", "message": "The startup failed."})
 
     async def __call__(self, scope: Scope, receive: Receive, send: Send) -> None:
         """
-- 
2.43.0


From 79d54a58d6bdd22fda8b06de4042011f33dd3c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:04 +0000
Subject: [PATCH 58/65] fix: generating a schema leaves the base schema alone

The paths of one generated schema ended up in the base schema, and so in the next one.
---
 starlette/schemas.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/starlette/schemas.py b/starlette/schemas.py
index bfc40e2..863aeda 100644
--- a/starlette/schemas.py
+++ b/starlette/schemas.py
@@ -130,7 +130,8 @@ class SchemaGenerator(BaseSchemaGenerator):
 
     def get_schema(self, routes: list[BaseRoute]) -> dict[str, typing.Any]:
         schema = dict(self.base_schema)
-        schema.setdefault("paths", {})
+        # Its paths are copied, so that one schema does not end up in another.
+        schema["paths"] = {path: dict(operations) for path, operations in schema.get("paths", {}).items()}
         endpoints_info = self.get_endpoints(routes)
 
         for endpoint in endpoints_info:
-- 
2.43.0


From 5efbb51f4fbfd140dbd590be2639d0d3057fadb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:04 +0000
Subject: [PATCH 59/65] fix: the write that moves an uploaded file to disk runs
 in a worker thread

---
 starlette/datastructures.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/starlette/datastructures.py b/starlette/datastructures.py
index f859b75..5d8d5f9 100644
--- a/starlette/datastructures.py
+++ b/starlette/datastructures.py
@@ -446,11 +446,16 @@ class UploadFile:
         rolled_to_disk = getattr(self.file, "_rolled", True)
         return not rolled_to_disk
 
+    def _will_roll(self, data: bytes) -> bool:
+        # check for SpooledTemporaryFile._max_size, beyond which a write moves it to disk
+        max_size = getattr(self.file, "_max_size", 0)
+        return bool(max_size) and self.file.tell() + len(data) > max_size
+
     async def write(self, data: bytes) -> None:
         if self.size is not None:
             self.size += len(data)
 
-        if self._in_memory:
+        if self._in_memory and not self._will_roll(data):
             self.file.write(data)
         else:
             await run_in_threadpool(self.file.write, data)
-- 
2.43.0


From 7391832f9d477f43c4d2b0b9bf9c2885749ced50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:04 +0000
Subject: [PATCH 60/65] fix: overwriting part of an uploaded file does not add
 to its size

---
 starlette/datastructures.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/starlette/datastructures.py b/starlette/datastructures.py
index 5d8d5f9..a514e57 100644
--- a/starlette/datastructures.py
+++ b/starlette/datastructures.py
@@ -452,14 +452,15 @@ class UploadFile:
         return bool(max_size) and self.file.tell() + len(data) > max_size
 
     async def write(self, data: bytes) -> None:
-        if self.size is not None:
-            self.size += len(data)
-
         if self._in_memory and not self._will_roll(data):
             self.file.write(data)
         else:
             await run_in_threadpool(self.file.write, data)
 
+        if self.size is not None and data:
+            # Data written over other data does not make the file any larger.
+            self.size = max(self.size, self.file.tell())
+
     async def read(self, size: int = -1) -> bytes:
         if self._in_memory:
             return self.file.read(size)
-- 
2.43.0


From 42086ffc9302e78e5187654e5b5b8a832cdaecec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:45 +0000
Subject: [PATCH 61/65] fix: a User-Agent given to the test client in capitals
 is not sent twice

---
 starlette/testclient.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/starlette/testclient.py b/starlette/testclient.py
index 77b5fc2..0cc174f 100644
--- a/starlette/testclient.py
+++ b/starlette/testclient.py
@@ -386,12 +386,11 @@ class TestClient(httpx.Client):
             app_state=self.app_state,
             client=client,
         )
-        if headers is None:
-            headers = {}
-        headers.setdefault("user-agent", "testclient")
+        client_headers = httpx.Headers(headers)
+        client_headers.setdefault("user-agent", "testclient")
         super().__init__(
             base_url=base_url,
-            headers=headers,
+            headers=client_headers,
             transport=transport,
             follow_redirects=follow_redirects,
             cookies=cookies,
-- 
2.43.0


From 26a71cf7fa9946b6a6f4411fd20ad532c7a93075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:45 +0000
Subject: [PATCH 62/65] fix: the test client keeps the body of a response that
 is cut short

---
 starlette/testclient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/testclient.py b/starlette/testclient.py
index 0cc174f..59ac37a 100644
--- a/starlette/testclient.py
+++ b/starlette/testclient.py
@@ -343,7 +343,7 @@ class _TestClientTransport(httpx.BaseTransport):
                 "stream": io.BytesIO(),
             }
 
-        raw_kwargs["stream"] = httpx.ByteStream(raw_kwargs["stream"].read())
+        raw_kwargs["stream"] = httpx.ByteStream(raw_kwargs["stream"].getvalue())
 
         response = httpx.Response(**raw_kwargs, request=request)
         if template is not None:
-- 
2.43.0


From d83c082c6d86db34cf584662b9b23ce3241e7789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:05 +0000
Subject: [PATCH 63/65] fix: give the requests of HTTPEndpoint their send
 channel, so they can push

---
 starlette/endpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/endpoints.py b/starlette/endpoints.py
index ac4dba9..d81d074 100644
--- a/starlette/endpoints.py
+++ b/starlette/endpoints.py
@@ -29,7 +29,7 @@ class HTTPEndpoint:
         return self.dispatch().__await__()
 
     async def dispatch(self) -> None:
-        request = Request(self.scope, receive=self.receive)
+        request = Request(self.scope, receive=self.receive, send=self.send)
         handler_name = "get" if request.method == "HEAD" and not hasattr(self, "head") else request.method.lower()
 
         handler: typing.Callable[[Request], typing.Any] = getattr(self, handler_name, self.method_not_allowed)
-- 
2.43.0


From 67e550158c9fbd652bb76a1284b936ec25e8560b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:05 +0000
Subject: [PATCH 64/65] fix: pass push promises of the app through
 BaseHTTPMiddleware instead of taking them for its response

---
 starlette/middleware/base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/starlette/middleware/base.py b/starlette/middleware/base.py
index cb62653..6aa435d 100644
--- a/starlette/middleware/base.py
+++ b/starlette/middleware/base.py
@@ -134,6 +134,12 @@ class BaseHTTPMiddleware:
                 return received.pop(0)
 
             async def send_no_error(message: Message) -> None:
+                if message["type"] == "http.response.push":
+                    # Not a part of the response, which it may come before.
+                    if not response_sent.is_set():
+                        await send(message)
+                    return
+
                 try:
                     await send_stream.send(message)
                 except anyio.BrokenResourceError:
-- 
2.43.0


From 4c6d933ee4fcacb6e1e991398abe63c25578ff71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:05 +0000
Subject: [PATCH 65/65] fix: let an exception handler close an accepted
 WebSocket with the response it returns

---
 starlette/_exception_handler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/starlette/_exception_handler.py b/starlette/_exception_handler.py
index e47e9e3..625e54b 100644
--- a/starlette/_exception_handler.py
+++ b/starlette/_exception_handler.py
@@ -70,7 +70,9 @@ def wrap_app_handling_exceptions(app: ASGIApp, conn: Request | WebSocket) -> ASG
                 response = await run_in_threadpool(handler, conn, exc)  # type: ignore
             if response is not None:
                 if isinstance(conn, WebSocket) and conn.application_state != WebSocketState.CONNECTING:
-                    raise RuntimeError("Caught handled exception, but the WebSocket already got an answer.") from exc
-                await response(scope, receive, sender)
+                    # The WebSocket already got an answer: it may still be closed, no more.
+                    await response(scope, receive, conn.send)
+                else:
+                    await response(scope, receive, sender)
 
     return wrapped_app
-- 
2.43.0

