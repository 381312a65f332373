#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json.  A property is claimed once drivers/<id>.py exists."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, tech="", note="", state=()):
    d = {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
        "anchors": {"files": ["starlette/" + f for f in files],
                    "mechanism": [{"name": n, "where": "starlette/" + w} for n, w in mech]},
    }  # fmt: skip
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append((d, tech, note))


S, C, I, G, H, K, F = (
    "schedules", "crash_points", "inputs", "programs", "histories", "configurations", "fault_sequences",
)  # fmt: skip

prop(
    "C01", "Every response obeys the ASGI response protocol and frames its body truthfully",
    "Whatever kind of response an application returns (plain, HTML, JSON, redirect, streaming, file; any status, "
    "headers, cookies, body and request method), the server is told exactly one response start followed by body "
    "messages of which exactly the last one says it is final, with the application's status, and with lower-case "
    "byte header names in the order they were set. The concatenated body is the rendered content (nothing for a HEAD "
    "request to a file), and a content-length, which automatic headers add only to responses whose whole body is "
    "known and whose status may have a body, equals the number of body bytes. An automatic content-type carries the media type, with the charset appended for "
    "text types only when it is not already there, and never replaces one set by the application.",
    [I, K], "all response classes, statuses, bodies, chunkings, header lists, cookies and request methods",
    "tests check a handful of bodies and statuses per class; the relation between headers, status and emitted messages is quantified over all of them",
    ["responses.py"],
    [("Response.init_headers/render/__call__", "responses.py"), ("StreamingResponse.stream_response", "responses.py"),
     ("FileResponse.__call__", "responses.py")],
)
prop(
    "C02", "An unhandled exception yields exactly one 500 and is re-raised to the server",
    "When an HTTP application raises an exception nobody handles, the server sees the same exception object raised again; "
    "if no response had been started a complete 500 response is emitted first (the debug page in debug mode, else the "
    "answer of the handler registered for 500 or Exception, else the plain default), and if one had been started nothing at all is "
    "emitted after the exception. (If that handler itself fails, its failure is what the server sees.) When nothing is raised, what the application sends passes through unchanged, and "
    "non-HTTP scopes are left alone. Request-derived and exception-derived text in the HTML debug page is always escaped, and "
    "no text of an exception keeps the debug page from being shown.",
    [F, I, K], "every point of the response at which the application can fail, every configuration of debug, handlers and middleware, every exception",
    "failure can occur before, between and after any response message and inside the error handler; tests sample the first",
    ["middleware/errors.py", "applications.py"],
    [("ServerErrorMiddleware.__call__", "middleware/errors.py"), ("Starlette.build_middleware_stack", "applications.py")],
)
prop(
    "C03", "A raised exception is answered by the most specific registered handler, once",
    "For an exception raised while routing or in an endpoint, the handler used is the one registered for the status code of an HTTPException if there "
    "is one, else the one registered for the nearest class in the exception's method resolution order (HTTPException "
    "and WebSocketException have defaults; an application's handler for 500 or Exception serves its outermost error layer, C02), else none and the exception propagates unchanged. The chosen handler is "
    "called exactly once, and its response is sent exactly once, only if no response has been started (no websocket accepted, closed or denied); if one has, a "
    "RuntimeError chained to the exception is raised and nothing more is emitted. An exception raised by the handler itself is a new one, handled by the layers further out. The default answer to an "
    "HTTPException carries its status, detail and headers (and no body for 204 and 304), and to a WebSocketException "
    "is a close with its code and reason.",
    [I, K, F], "all exception class hierarchies, handler tables (sync and async, status and class keys), and failure points, in HTTP and WebSocket endpoints, nested applications included",
    "the handler table and the class hierarchy are unbounded configurations; tests register one or two handlers",
    ["_exception_handler.py", "middleware/exceptions.py", "routing.py", "applications.py"],
    [("wrap_app_handling_exceptions", "_exception_handler.py"), ("_lookup_exception_handler", "_exception_handler.py"),
     ("ExceptionMiddleware", "middleware/exceptions.py")],
)
prop(
    "C04", "A request is dispatched to the first matching route, with exactly its parameters",
    "For any route table, the request runs exactly the first route (in declaration order, through mounts and hosts) "
    "whose whole path pattern and method match, with each path parameter converted by its convertor; if none does but a path matched, "
    "the first such route answers (405 with an Allow header listing the route's methods). Otherwise, if slash redirection is on and "
    "the same path with a trailing slash added, or its trailing slashes removed, matches something, the answer is a redirect to that URL with "
    "the query string kept; and otherwise it is 404 (a close for a websocket). Patterns match case-sensitively and completely, literal text "
    "matches literally, and a parameter matches only what its convertor accepts.",
    [I, K], "all route tables (paths, methods, convertors, mounts, hosts, nesting) and all request paths and methods",
    "the quantification is over tables and paths jointly; tests use one table and selected paths",
    ["routing.py", "convertors.py", "_utils.py"],
    [("Router.app", "routing.py"), ("compile_path", "routing.py"), ("Route.matches", "routing.py"),
     ("Mount.matches", "routing.py"), ("Host.matches", "routing.py")],
)
prop(
    "C05", "Reversing a route name and routing the result leads back to that route",
    "For any route table, building the URL of a name with parameters succeeds exactly when the first route with that "
    "name (a colon-separated path of names through mounts and hosts) takes exactly those parameter names and every value is "
    "representable by its convertor, and otherwise raises an error rather than yielding a URL. The path it yields fills the route's pattern with the rendered values, so requesting it (decoded, after the root path) "
    "matches that same pattern, selects it unless an earlier route also matches, and yields parameters equal to the given ones wherever the path can be read in only one way; the absolute form carries the "
    "scheme, host and root path of the current request, with ws for websocket routes.",
    [I, K], "all route tables with names, nested mounts and hosts, and all parameter assignments of every convertor type",
    "a round trip over the product of tables and values; tests reverse a few literals",
    ["routing.py", "convertors.py", "datastructures.py", "requests.py"],
    [("Router.url_path_for / Route.url_path_for / Mount.url_path_for / Host.url_path_for", "routing.py"),
     ("replace_params", "routing.py"), ("URLPath.make_absolute_url", "datastructures.py")],
)
prop(
    "C06", "Nested mounts and hosts account for the path exactly once",
    "An application at any depth of mounts and hosts sees the full request path, a root path equal to the server's root path followed by "
    "every mount prefix matched so far, the union of all path parameters with inner ones winning, and the innermost endpoint. "
    "What siblings or failed matches would have added is never seen.",
    [I, K, H], "all trees of mounts, hosts and routers, root paths and request paths",
    "depth and combination of nesting are unbounded; tests nest at most two levels",
    ["routing.py", "_utils.py"],
    [("Mount.matches", "routing.py"), ("Host.matches", "routing.py"), ("get_route_path", "_utils.py"), ("Router.app", "routing.py")],
)
prop(
    "C07", "Middleware wraps in declared order at application, mount, router and route level",
    "Every request passes through error handling, then the application's middleware in list order (one added later is outermost of them), "
    "then exception handling, then the routers and the middleware of the mount, router and route it goes through, then the endpoint, each exactly once, and unwinds in reverse; "
    "middleware of routes the request does not take never runs. The stack is built once, keeps each middleware's arguments, and middleware can no longer be "
    "added once the application has begun serving.",
    [K, G, H], "all lists of middleware at each level and histories of add and serve operations",
    "order and multiplicity must hold for all nestings and histories",
    ["applications.py", "middleware/__init__.py", "routing.py"],
    [("Starlette.build_middleware_stack/add_middleware", "applications.py"), ("Middleware", "middleware/__init__.py"),
     ("Route/Mount/Router middleware", "routing.py")],
)
prop(
    "C08", "Function and class endpoints answer exactly the methods they declare",
    "A function endpoint answers exactly its declared methods (GET by default, HEAD whenever GET is) and a class-based one exactly the HTTP methods "
    "it defines handlers for, HEAD falling back to the GET handler; every other method gets 405 with an Allow header listing "
    "the supported methods and runs no handler. The handler runs exactly once per request, in a worker thread iff it is a "
    "plain function, and its returned response is sent.",
    [I, K], "all sets of declared methods, endpoint styles (sync, async, partial, callable object, class) and request methods, including unknown ones",
    "tests try GET and one unsupported method",
    ["endpoints.py", "routing.py", "_utils.py"],
    [("HTTPEndpoint.dispatch/method_not_allowed", "endpoints.py"), ("Route.__init__/handle", "routing.py"), ("is_async_callable", "_utils.py")],
)
prop(
    "C09", "A WebSocket session only ever produces legal protocol traffic",
    "Whatever sequence of calls an application makes on a WebSocket, from one task or overlapping ones, and whatever the server answers, "
    "the server is told a legal session: one accept, or one close, or one denial response; data only after accept; nothing after a close or after the end of a denial response; "
    "and it is never asked for messages before connect is read, or after a disconnect. A call that would break this raises instead, and every permitted "
    "call passes its data through unchanged in both directions. A disconnect surfaces to reading calls as a disconnect with the peer's code and reason (iteration just ends), and a lost "
    "connection surfaces to sending calls as a disconnect with code 1006.",
    [H, S, I, F], "all call sequences (overlapping sends included), message contents, server answers and send failures",
    "a protocol over unbounded histories and interleavings; tests walk a few straight paths",
    ["websockets.py"],
    [("WebSocket.receive", "websockets.py"), ("WebSocket.send", "websockets.py"), ("receive_*/send_*/iter_*", "websockets.py"),
     ("send_denial_response", "websockets.py")],
    "TLA+ session automaton (WebSocket.tla) model-checked by TLC; TLC-exported scenarios replayed on the code and recorded traces validated by TLC",
    "Every transition of the bounded model (two overlapping calls, server delays, failures, all message kinds) is replayed on the real class on asyncio and trio, plus random longer histories; traces are judged by TLC. Trusted: the harness's recording of the ASGI boundary.",
    [("client_state", "what the application has seen of the client"), ("application_state", "what the application has told the server")],
)
prop(
    "C10", "A WebSocketEndpoint's hooks run exactly as the session goes",
    "A class-based WebSocket endpoint runs its connect hook once (an exception it raises propagates and ends the session), then its receive hook once per client message, in order and one at a time, with the message decoded by "
    "the declared encoding, and then its disconnect hook exactly once as the last hook, with the client's close code (1000 if it sent none), or 1011 if decoding or "
    "a receive hook raised, and the exception propagates. A message of the wrong kind or malformed JSON closes the connection with 1003 and is never delivered.",
    [H, I, F], "all message sequences, encodings, close codes and exceptions in any hook",
    "histories of messages and failures are unbounded; tests send one message",
    ["endpoints.py"],
    [("WebSocketEndpoint.dispatch/decode", "endpoints.py")],
)
prop(
    "C11", "A request body is delivered whole and consistently however it is read",
    "For any chunking of a request body, streaming yields exactly its non-empty chunks in order; reading it whole (as bytes, JSON or a form) yields the whole body, can be repeated with the same answer, "
    "and once it was read as bytes or JSON every other way of reading answers from the same body. Nothing reads past the end of the body. Once part of the stream was handed out without being kept, reading the body "
    "whole raises rather than returning a truncated body (streaming again continues with what is left, and raises after the end), and a client that disconnects before the end makes every pending or later read raise a disconnect error, never a short body. Asking whether the "
    "client has disconnected answers truthfully, does not block and takes nothing away from later reads.",
    [I, H, F], "all chunkings, orders of reading operations and disconnect points",
    "reads can be ordered and interrupted in unboundedly many ways; tests cover a few",
    ["requests.py"],
    [("Request.stream/body/json/form/is_disconnected", "requests.py")],
)
prop(
    "C12", "BaseHTTPMiddleware never loses, duplicates or reorders the request body",
    "Through any stack of function middleware, whatever subset of them read the body as a whole or as a stream to its end before calling on, the application receives the same "
    "body bytes exactly once, followed by whatever the server delivers next (a disconnect). A middleware that consumed the stream without caching it (form parsing included) leaves the application an empty "
    "body, never a hang, and a disconnect while the body is arriving is seen as a disconnect.",
    [G, I, H, F], "all stacks of reading behaviours, chunkings and disconnect points",
    "the combinations of middleware behaviours and chunkings are unbounded; tests cover single middleware",
    ["middleware/base.py", "requests.py"],
    [("_CachedRequest.wrapped_receive", "middleware/base.py"), ("BaseHTTPMiddleware.__call__", "middleware/base.py")],
)
prop(
    "C13", "BaseHTTPMiddleware relays response, errors and background work, always",
    "A function middleware that just calls on is transparent: status, headers and body chunks arrive unchanged and in order, each chunk can be sent before the next is produced, background tasks run "
    "to completion after the response even if the client leaves, and an exception of the application that no middleware handles reaches the caller as itself, once, whether it is raised before, during or after the response. "
    "A middleware that answers itself, replaces the response or leaves its body unread still yields one well-formed response, with the application cancelled or finished and nothing left running; "
    "a response whose production failed half way is never presented to the server as complete.",
    [S, F, G], "all interleavings of producing, relaying, failing and disconnecting, over stacks of middleware, on both event loops",
    "the relay is concurrent (task group plus memory stream); tests exercise single schedules",
    ["middleware/base.py"],
    [("BaseHTTPMiddleware.__call__ call_next", "middleware/base.py"), ("_StreamingResponse", "middleware/base.py")],
)
prop(
    "C14", "A streaming response stops promptly and cleanly when the client goes away",
    "A streaming response sends every produced chunk in order and then one final message. When the client disconnects (announced by a disconnect "
    "message for servers before spec version 2.4, or by a failing send from 2.4 on), nothing more is sent except what a worker thread was already producing, the producer is never advanced again and not left running when the response returns, and "
    "(from 2.4 on) the caller sees a client-disconnect error. An exception of the producer propagates as itself, and no "
    "final message is sent then.",
    [S, F], "all points and interleavings of disconnects, send failures and producer progress, sync and async producers, on both event loops",
    "a race between two tasks; tests disconnect at one fixed point",
    ["responses.py", "concurrency.py"],
    [("StreamingResponse.__call__/listen_for_disconnect/stream_response", "responses.py")],
)
prop(
    "C15", "Background tasks run after the response, in order, once, until one fails",
    "Background tasks attached to a response start only after its final body message was sent, run exactly once each with their arguments, strictly one after another in the order "
    "added (tasks added while running included), in a worker thread iff they are plain functions. If one raises, the later ones do not run and the exception reaches the caller; the response already sent is unaffected. "
    "No background task runs when producing or sending the response failed; they do run when a server before spec version 2.4 announced that the client left.",
    [H, F, I], "all lists of tasks, failure positions, response kinds and send failures",
    "the position of failures and mix of tasks is unbounded",
    ["background.py", "responses.py"],
    [("BackgroundTasks.__call__", "background.py"), ("Response.__call__ background", "responses.py")],
)
prop(
    "C16", "File responses return exactly the requested bytes with truthful range headers",
    "For a file and any Range header, a file response with status 200 becomes either the whole file, the selected bytes with 206 and a Content-Range that describes exactly the bytes sent, "
    "or an error: 400 for a malformed header and 416 for ranges outside the file; a suffix longer than the file selects all of it. Several satisfiable ranges yield one multipart body whose parts together cover exactly the requested bytes, each part labelled with its own exact "
    "range. An If-Range that matches neither the ETag nor the modification date disables ranges, file responses with another status ignore them, and the declared length is the number of bytes sent.",
    [I], "all file sizes, range lists (overlapping, adjacent, suffix, open-ended), If-Range values and methods",
    "tests use one file and a few ranges; the arithmetic must hold for all",
    ["responses.py"],
    [("FileResponse._parse_range_header", "responses.py"), ("FileResponse._handle_single_range/_handle_multiple_ranges", "responses.py")],
)
prop(
    "C17", "Static files serve only what is inside, with correct status for every path",
    "For any request path, a static file application serves only regular files whose real location is inside one of its directories (or reached through a symlink if following is on), "
    "searching them in order and taking the first entry found, and answers 404 otherwise (for paths no file can have, too), 405 for methods other than GET and HEAD, and in HTML mode index pages, a redirect to the slash form for directories, and the 404 page. "
    "A conditional request gets 304 (without the body and entity headers) when If-None-Match lists the file's ETag, or, without that header, when If-Modified-Since is not older than the file, and the file otherwise.",
    [I, K], "all directory trees (symlinks included), request paths (dot segments, encoded and absolute forms) and conditional headers",
    "escape attempts are an unbounded input class; tests try two",
    ["staticfiles.py"],
    [("StaticFiles.lookup_path", "staticfiles.py"), ("StaticFiles.get_response/file_response/is_not_modified", "staticfiles.py")],
)
prop(
    "C18", "Compression is transparent: decoding the response gives back the original",
    "For every response and chunking, decompressing what the gzip middleware emits gives the original body; it compresses only if the client accepts gzip, "
    "the response is not already encoded, is not an event stream, and is streamed or at least the minimum size. A compressed response says so, has no stale content-length and varies on Accept-Encoding; an "
    "uncompressed one keeps its status, headers and body (apart from Vary).",
    [I, K], "all bodies, chunkings, header sets, accept-encoding values and thresholds",
    "round trip over all bodies and chunkings",
    ["middleware/gzip.py"],
    [("GZipResponder.send_with_compression", "middleware/gzip.py"), ("IdentityResponder", "middleware/gzip.py")],
)
prop(
    "C19", "Sessions round-trip through a signed, expiring cookie and cannot be forged",
    "What a request stores in the session is exactly what the next request presenting the returned cookie reads, for any JSON-representable content and any history of changes; an emptied or cleared session expires the cookie and one that was "
    "never filled sets none. A cookie that is altered, signed with another key or older than the maximum age yields an empty session, never an error and never its content. The cookie carries the "
    "configured name, path, domain, max-age, SameSite, and Secure attributes and is always HttpOnly.",
    [H, I, K], "all histories of session operations, contents, clock advances, tamperings and cookie options",
    "histories with time and tampering; tests follow one script",
    ["middleware/sessions.py"],
    [("SessionMiddleware.__call__", "middleware/sessions.py")],
)
prop(
    "C20", "CORS grants exactly the configured origins, methods and headers",
    "A preflight succeeds (200) iff its origin, method and every requested header are allowed by the configuration and otherwise gets 400 naming what failed; it never reaches the application. On every "
    "response, Access-Control-Allow-Origin is present iff the request carries an allowed origin, is * only when all origins are allowed without a credentialed request carrying cookies, otherwise echoes the origin with Vary: Origin, and credentials are "
    "allowed only if configured. Origins match exactly or by full regular-expression match, methods case-sensitively and headers case-insensitively; requests without an Origin pass through untouched.",
    [I, K], "all configurations and all request origins, methods, header lists and cookies",
    "product of configuration and request; tests sample a few",
    ["middleware/cors.py"],
    [("CORSMiddleware.is_allowed_origin/preflight_response/send", "middleware/cors.py")],
)
prop(
    "C21", "Only allowed hosts reach the application",
    "A request or websocket reaches the application iff the host part of its Host header equals an allowed host or lies under an allowed *.domain pattern (not the bare domain), ports "
    "ignored, or everything is allowed; otherwise, if www. followed by it is listed (and that redirect is enabled), it is redirected to the same URL with www., and "
    "else it is answered with 400, as are Host headers that are not a host and an optional port. Lifespan always passes.",
    [I, K], "all allow-lists, Host headers (ports, case, missing, near misses) and request URLs",
    "near-miss host names are an unbounded input class",
    ["middleware/trustedhost.py"],
    [("TrustedHostMiddleware.__call__", "middleware/trustedhost.py")],
)
prop(
    "C22", "Plain-text requests are redirected to the same URL over TLS, and nothing else is",
    "With the HTTPS redirect middleware, every request with scheme http or ws gets a 307 to the same host, path and query with scheme https or wss, default ports "
    "dropped and other ports kept, and never reaches the application; requests already using https or wss and lifespan pass through unchanged.",
    [I], "all schemes, hosts, ports, paths and queries",
    "URL space; tests use three URLs",
    ["middleware/httpsredirect.py", "datastructures.py"],
    [("HTTPSRedirectMiddleware.__call__", "middleware/httpsredirect.py")],
)
prop(
    "C23", "Protected endpoints run only with every required scope",
    "An endpoint guarded by required scopes runs iff the connection's credentials include all of them; otherwise it never runs and the answer is the configured status (403 by default), a 303 "
    "redirect to the named route carrying the original URL as next, or a close for websockets, for sync, async and websocket endpoints alike. The authentication middleware "
    "calls the backend exactly once per connection, exposes exactly the credentials and user it returned (unauthenticated and empty if none), and turns an authentication error into the error response (400 or the custom one, "
    "a close for a websocket) without running the application.",
    [I, K], "all scope sets, guard configurations, endpoint kinds and backend outcomes",
    "product of scope sets, endpoint kinds and failure modes",
    ["authentication.py", "middleware/authentication.py"],
    [("requires", "authentication.py"), ("AuthenticationMiddleware.__call__", "middleware/authentication.py")],
)
prop(
    "C24", "The lifespan protocol is followed exactly once around serving, failures included",
    "For each lifespan, startup code runs exactly once and completely before startup is reported complete, shutdown code exactly once after shutdown is requested and before it is "
    "reported complete, in declaration order; a failure of either is reported as startup failed or shutdown failed with the traceback, respectively, and re-raised. What "
    "the lifespan yields becomes the server-provided state visible to every request as request state, each request getting its own shallow copy.",
    [F, H, K], "all lifespan styles (async generator, sync generator, context manager, event handlers), failure points and yielded states",
    "failure points and styles multiply; tests cover a few",
    ["routing.py", "applications.py", "testclient.py"],
    [("Router.lifespan/_DefaultLifespan", "routing.py"), ("Request.state", "requests.py")],
)
prop(
    "C25", "Headers, query strings and form data behave as ordered multi-maps",
    "After any sequence of operations, header collections, query parameters, form data and mutable multi-dicts equal the ordered list of pairs those operations define: a lookup gives one value for a key "
    "(headers: the first, case-insensitively; others: the last), list lookup gives all in order, item assignment leaves exactly one entry for the key, and length, iteration, "
    "membership, equality and copies agree with it. Mutating headers keeps the underlying raw list in step, immutable views cannot be changed through copies, and parsing or "
    "encoding query strings loses nothing.",
    [H, I], "all operation histories and all contents (duplicates, case variants, empty values)",
    "an abstract data type over unbounded histories",
    ["datastructures.py"],
    [("ImmutableMultiDict/MultiDict", "datastructures.py"), ("Headers/MutableHeaders", "datastructures.py"), ("QueryParams", "datastructures.py")],
)
prop(
    "C26", "Form parsing ignores chunking, enforces limits and keeps no files open",
    "For any multipart or URL-encoded body and any way of cutting it into chunks, the parsed form has the same fields and files, in order, with the same names, "
    "filenames, content types, headers and contents. More files, fields or larger non-file parts than the limits give a 400 error (or the parser's exception outside an application) and everything within the "
    "limits is accepted. After a parsing error no temporary file remains open, and closing a form or leaving its context closes every file.",
    [I, F], "all forms, boundary contents, chunkings, limits and error positions",
    "chunk boundaries can fall anywhere; tests send whole bodies",
    ["formparsers.py", "requests.py", "datastructures.py"],
    [("MultiPartParser", "formparsers.py"), ("FormParser", "formparsers.py"), ("Request._get_form/close", "requests.py"), ("UploadFile", "datastructures.py")],
)
prop(
    "C27", "Configuration values come from the environment, then the file, then the default",
    "Looking up a setting gives the environment's value if set there, else the env file's, else the default, else a KeyError; with a cast, the cast value (true/1/false/0 for booleans in any case, anything else an error), and a "
    "value that cannot be cast is an error. A prefix applies to every lookup, and an environment mapping refuses to change or delete a key once that key has been read.",
    [I, H, K], "all environments, files, prefixes, casts and histories of reads and writes",
    "layers and histories multiply",
    ["config.py"],
    [("Config.get/_perform_cast", "config.py"), ("Environ", "config.py")],
)
prop(
    "C28", "Blocking code runs off the event loop with context, results, errors intact",
    "Plain-function endpoints, background tasks, exception handlers and the synchronous iterators of streamed responses run in worker threads, never on the event loop thread, with the caller's context variables visible; results, yielded "
    "items in order, and exceptions come back unchanged, and the event loop keeps serving meanwhile. Async code always runs on the event loop.",
    [S, I, G], "all callables and iterators, their results and failure points, and schedules of several of them",
    "a property of where code runs for every kind of callable; tests check some",
    ["concurrency.py", "routing.py", "background.py", "_exception_handler.py"],
    [("run_in_threadpool/iterate_in_threadpool", "concurrency.py"), ("request_response", "routing.py")],
)
prop(
    "C29", "Concurrent requests never see each other's state",
    "However many requests one application serves at once and however they interleave, each request gets the response computed from its own path parameters, query, headers, body, session, state, and middleware data, "
    "equal to the one it would get alone.",
    [S, I], "all interleavings of several requests through the full middleware stack, on both event loops",
    "tests serve one request at a time",
    ["applications.py", "routing.py", "requests.py", "middleware/base.py"],
    [("Starlette.__call__", "applications.py"), ("Router.app", "routing.py"), ("middleware", "middleware/base.py")],
)
prop(
    "C30", "The test client shows exactly what the application did",
    "A request made through the test client delivers method, path, query, headers and body to the application faithfully, and the status, headers and body the application sends come back unchanged; an application exception "
    "is raised to the caller (or becomes a 500 if so configured). Through a WebSocket test session both sides see each other's messages in order and the close code "
    "and reason, rejection is raised as a disconnect or denial response, and lifespan startup and shutdown run exactly once around a client context.",
    [I, H], "all requests, responses, websocket conversations and failures",
    "the client is the oracle of the other tests, so they cannot settle its fidelity",
    ["testclient.py"],
    [("_TestClientTransport.handle_request", "testclient.py"), ("WebSocketTestSession", "testclient.py"), ("TestClient.lifespan", "testclient.py")],
)
prop(
    "C31", "The WSGI bridge translates requests and responses faithfully",
    "A WSGI application mounted through the bridge sees the method, script name, path, query, headers (repeated ones joined by commas), body and server address of the request, and its status, headers and body chunks reach the "
    "client in order followed by one final message, and the iterable it returned is closed. An exception it raises, or the one it reports before any output, propagates to the caller, and a response never starts twice.",
    [I, F], "all requests, WSGI applications, chunkings and failure points",
    "translation over all requests; tests run four tiny apps",
    ["middleware/wsgi.py"],
    [("build_environ", "middleware/wsgi.py"), ("WSGIResponder", "middleware/wsgi.py")],
)
prop(
    "C32", "Request URLs are rebuilt faithfully and URL edits change only what they name",
    "The URL of a connection is its scheme, Host header (else the server address without default port) and path (with ?, # and % of the decoded path percent-encoded so that they cannot end it), with the query string; its base URL ends in the root path and a slash. Replacing "
    "components of a URL, or including, replacing or removing query parameters, changes exactly those components, keeps all others (user info, port, fragment), and a password is never shown by repr.",
    [I], "all scopes and URLs and all sets of replacements",
    "URL component combinations are unbounded; tests use literals",
    ["datastructures.py", "requests.py"],
    [("URL.__init__/replace/include_query_params", "datastructures.py"), ("HTTPConnection.url/base_url", "requests.py")],
)
prop(
    "C33", "Cookies are parsed leniently and set with exactly the requested attributes",
    "The cookies of a request are exactly the name/value pairs of its Cookie header (or headers) split at semicolons, later ones overriding earlier, values unquoted, and malformed ones tolerated. A "
    "cookie set on a response produces one Set-Cookie header with exactly the requested attributes, kept apart from other headers and cookies, which a browser would send back with the same value; "
    "deleting one expires it with the same path and domain.",
    [I, H], "all cookie headers and all attribute combinations, and sequences of set and delete",
    "grammar space; tests use a list of examples",
    ["requests.py", "responses.py"],
    [("cookie_parser", "requests.py"), ("Response.set_cookie/delete_cookie", "responses.py")],
)

prop(
    "C34", "A template response renders exactly its own context for its own request",
    "However the arguments of TemplateResponse are written (positionally, by keyword, the deprecated forms; a context left out, None, or one object kept by the application and given to many calls), "
    "the response renders the first template of that name in search order with the entries of the context given, the request it was made for, and the additions of every context processor in order, later ones winning; "
    "values are escaped as the environment says, links made by url_for are those of that request, and status, headers, media type and background work are as given. Nothing is carried over from one call to another, the context given is left "
    "alone, and later changes to it do not reach a response already made. Template and context are reported to a server that takes debug messages, before the start, and to no other. A template that does not exist and a missing request raise.",
    [H, I, K, S], "all sequences of template responses made and sent by concurrent requests with shared and changing contexts, all processors and environments",
    "whether one call influences the next depends on histories of calls; tests make one response each",
    ["templating.py"],
    [("Jinja2Templates.TemplateResponse", "templating.py"), ("_TemplateResponse.__call__", "templating.py"), ("_setup_env_defaults.url_for", "templating.py")],
)

prop(
    "C35", "A generated schema documents exactly the endpoints, where they are served",
    "The schema generated for a table of routes has, besides what the base schema given has, exactly one operation for every method of every endpoint shown in the schema whose docstring documents it: functions under the methods of their "
    "route (HEAD excepted), class endpoints under the methods they define, at the path where they are served, mounts' paths before it and convertors left out of parameters; hidden routes, undocumented endpoints, websockets and applications without routes "
    "do not appear. The endpoint answering a documented path and method is the one documented there. Generating a schema, directly or as a response in YAML, has no influence on the base schema or on later schemas.",
    [K, H], "all route tables with mounts, hosts and endpoints of every kind and documentation of every form, and all sequences of schemas generated",
    "the set of operations is a function of the whole table; tests compare two literal schemas",
    ["schemas.py"],
    [("BaseSchemaGenerator.get_endpoints/parse_docstring", "schemas.py"), ("SchemaGenerator.get_schema", "schemas.py")],
)
prop(
    "C36", "An uploaded file is one file wherever it is, and never holds the event loop",
    "For every sequence of writes, reads and seeks, an uploaded file behaves as one sequence of bytes with one position: what is read is what was written there, whether the file is still in memory, has moved to disk meanwhile or was always there, and however "
    "the upload was cut into chunks; a size that is known is the number of bytes in the file after every write. Work on a disk (moving the file there included) never runs on the event loop's thread, file name and content type stay as uploaded, several files do not influence each other, and a closed "
    "file refuses to be used.",
    [H, I, S], "all sequences of operations on all kinds of files, contents and spool sizes, several files at a time",
    "the move to disk happens in the middle of a history of operations; tests write twice around it",
    ["datastructures.py", "formparsers.py"],
    [("UploadFile.write/read/seek/close", "datastructures.py"), ("MultiPartParser.parse", "formparsers.py")],
)
prop(
    "C37", "A push promise reaches the server once, in its place, as its request asks",
    "When the server takes push promises, every call of Request.send_push_promise, from endpoints of every kind (functions, plain functions by way of the loop, classes, applications, exception handlers, while the body is being streamed) and through every stack of middleware, "
    "reaches the server as one message with exactly that path, in order, not after anything the application sent later, and with exactly the values of the accept, accept-encoding, accept-language, cache-control and user-agent headers of that request and no others, cookies and credentials least of all; "
    "when the server does not, the call does nothing. Promises never fail, change the response or go to another request's client.",
    [K, I, S], "all endpoints, stacks of middleware, request headers and places of promises in the response, with concurrent requests",
    "the promise has to pass by a response on its way through any stack of middleware; tests call it with no middleware at all",
    ["requests.py", "middleware/base.py", "middleware/gzip.py", "endpoints.py"],
    [("Request.send_push_promise", "requests.py"), ("BaseHTTPMiddleware.__call__", "middleware/base.py"), ("HTTPEndpoint.dispatch", "endpoints.py")],
)


prop(
    "C38", "All views of a connection share one state and show what its scope holds",
    "Whatever code handles a connection (middleware of either kind at any level, endpoints of every kind, exception handlers, background tasks, on the loop or in threads) and whatever view of it that code makes or is given (Request, WebSocket, HTTPConnection), "
    "what one of them sets or deletes in state or in the session is what all others of the same scope see from then on, before and after the response, and no other connection's views do; state begins with what the server gave and may be used whether or not the server gave any; "
    "user, auth, session, client, path_params and the mapping of a view are what its scope holds at that moment, an error or the documented default if it holds none; the application's state is one for all connections; a view equals only itself.",
    [K, I, S], "all histories of views, copies of scopes, writes, deletions and reads, by layers of every kind, with concurrent requests",
    "an interplay of several views, made at different times by different layers, one of which may be the first to ask; tests make one or two views of a scope by hand",
    ["requests.py", "datastructures.py", "middleware/base.py", "applications.py", "websockets.py"],
    [("HTTPConnection.state", "requests.py"), ("State", "datastructures.py"), ("HTTPConnection", "requests.py"), ("BaseHTTPMiddleware.__call__", "middleware/base.py")],
)


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for d, _, _ in P:
            f.write(json.dumps(d) + "\n")
    import importlib.util

    checks, na = [], []
    for d, tech, note in P:
        pid = d["id"]
        if os.path.exists(os.path.join(V, "drivers", pid.lower() + ".py")):
            if not tech:
                info = {}
                p = os.path.join(V, "tools", "notes.json")
                if os.path.exists(p):
                    info = json.load(open(p)).get(pid, {})
                tech, note = info.get("technique", ""), info.get("note", "")
            assert tech and note, pid
            checks.append({
                "property": pid, "quick_cmd": f"./check {pid}", "thorough_cmd": f"./check {pid} thorough",
                "evidence_file": f"evidence/{pid}.json", "technique": tech, "level": "model_checking", "level_note": note,
            })  # fmt: skip
        else:
            na.append({"property": pid, "reason": "specification planned in DESIGN.md; its check is not built yet"})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
                   "notes": "TLA+ specifications in spec/, drivers binding them to the code in drivers/, shared machinery in lib/. See DESIGN.md."},
                  f, indent=1)  # fmt: skip
        f.write("\n")


main()
