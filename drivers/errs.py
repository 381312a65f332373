"""Exceptions on their way out of real applications: shared by C02 and C03."""

from __future__ import annotations

import functools
import linecache
import threading
import warnings

import asgi
import core
import sched

MSG = "tokM<b>&\"x' >"
FILE = 'tokF<i>&".py'
FUNC = "tokN<i>"
LINE = "tokS<u>&\"'"
TOKENS = {"tokM": MSG, "tokF": FILE, "tokN": FUNC, "tokS": LINE, "tokC": "tokC<em>&"}


def classes():
    from starlette.exceptions import HTTPException, WebSocketException

    class A(Exception):
        pass

    class B(A):
        pass

    class Mx(Exception):
        pass

    class D(Mx, B):
        pass

    class H(HTTPException):
        pass

    class HB(B, HTTPException):
        pass

    class W(WebSocketException):
        pass

    class Up(Exception):
        """Not an HTTPException, whatever it carries."""

        status_code, code, detail, headers, reason = 404, 1008, "up", {"x-up": "1"}, "up"

    odd = type("tokC<em>&", (A,), {})
    return {"A": A, "B": B, "Mx": Mx, "D": D, "H": H, "HB": HB, "W": W, "Odd": odd, "Up": Up, "OSError": OSError, "HTTPException": HTTPException, "WebSocketException": WebSocketException,
            "Exception": Exception, "LookupError": LookupError, "KeyError": KeyError, "RuntimeError": RuntimeError}  # fmt: skip


def norm(m):
    t = m["type"]
    r = {"type": t, "status": 0, "body": "", "more": False, "hdrs": []}
    if t.endswith("response.start"):
        r["status"] = m["status"]
        r["hdrs"] = [[k.decode("latin-1"), v.decode("latin-1")] for k, v in m.get("headers", []) if k.startswith(b"x-") or k == b"allow"]
    elif t.endswith("response.body"):
        b = m.get("body", b"").decode("utf-8", "replace")
        r["body"] = b if len(b) < 300 else "PAGE"
        r["more"] = bool(m.get("more_body"))
    elif t == "websocket.close":
        r["status"] = m.get("code", 1000)
        r["body"] = m.get("reason") or ""
    elif t == "websocket.send":
        r["body"] = m.get("text") or ""
    return r


def layers_of(scn):
    out = []
    apps = scn["apps"]
    if scn["ep"] in ("func", "sync"):
        out.append({"k": "h", "tab": apps[0]["tab"], "h": "0", "debug": False})
    for a in apps:
        out.append({"k": "h", "tab": a["tab"], "h": "0", "debug": False})
        out += [{"k": "m", "tab": [], "h": "0", "debug": False}] * a["mids"]
        out.append({"k": "e", "tab": [], "h": a["eh"], "debug": a["debug"]})
    return out


def execute(scn):
    from starlette.applications import Starlette
    from starlette.endpoints import HTTPEndpoint, WebSocketEndpoint
    from starlette.middleware import Middleware
    from starlette.middleware.errors import ServerErrorMiddleware
    from starlette.middleware.exceptions import ExceptionMiddleware
    from starlette.requests import Request
    from starlette.responses import JSONResponse, PlainTextResponse, StreamingResponse
    from starlette.routing import Mount, Route, WebSocketRoute
    from starlette.websockets import WebSocket, WebSocketClose

    ev = []
    C = classes()
    names = {v: k for k, v in C.items()}
    known = {}  # id(exc) -> (exc, name)
    http = scn["typ"] == "http"
    path = "/in" * (len(scn["apps"]) - 1) + ("/missing" if scn["ep"] == "missing" else "/x")
    helper_ns = {}
    exec(compile(f"def f(x):\n    raise x  # {LINE}\n", FILE, "exec"), helper_ns)
    linecache.cache[FILE] = (10, None, ["def f(x):\n", f"    raise x  # {LINE}\n"], FILE)
    oddly = type(helper_ns["f"])(helper_ns["f"].__code__.replace(co_name=FUNC), helper_ns)

    def make(x):
        cls = C[x["cls"]]
        if x["cls"] in ("H", "HB", "HTTPException"):
            return cls(x["status"], detail=x["detail"], headers=dict(x["hdrs"]) if x["hdrs"] else None)
        if x["cls"] in ("W", "WebSocketException"):
            return cls(x["code"], x["reason"])
        text = f"{MSG} #x{len(known)}!"
        return cls("\udcff\n" + text if scn["style"] % 4 == 0 else text)

    router = scn["ep"] in ("missing", "badmethod", "badmethodclass")

    def ident(exc):
        if exc is None:
            return ""
        for e, name in known.values():
            if e is exc:
                return name
        if router and type(exc) is C["HTTPException"] and "x-router" not in known:
            known["x-router"] = (exc, "x-router")
            return "x-router"
        return "late" if isinstance(exc, RuntimeError) else "unknown:" + type(exc).__name__

    def record(exc):
        name = f"x{len(known)}"
        known[name] = (exc, name)
        if not isinstance(exc, (C["HTTPException"], C["WebSocketException"])):
            return {"id": name, "mro": [names.get(c, c.__name__) for c in type(exc).__mro__ if issubclass(c, Exception)],
                    "status": 0, "detail": "", "hdrs": [], "code": 0, "reason": ""}  # fmt: skip
        return {"id": name, "mro": [names.get(c, c.__name__) for c in type(exc).__mro__ if issubclass(c, Exception)],
                "status": getattr(exc, "status_code", 0), "detail": getattr(exc, "detail", ""), "hdrs": [[k.lower(), v] for k, v in (getattr(exc, "headers", None) or {}).items()],
                "code": getattr(exc, "code", 0) or 0, "reason": getattr(exc, "reason", "") or ""}  # fmt: skip

    def throw(exc):
        if scn["style"] % 3 == 0:
            oddly(exc)
        raise exc

    outcomes = [a for a in scn["hist"] if a["a"] not in ("emit", "raise", "later", "sfail")]
    sfail = next((a["n"] for a in scn["hist"] if a["a"] == "sfail"), 0)
    emits = [a["m"] for a in scn["hist"] if a["a"] == "emit"]
    raises = next((a for a in scn["hist"] if a["a"] == "raise"), None)
    later = next((a for a in scn["hist"] if a["a"] == "later"), None)
    layers = layers_of(scn)

    def full(m):
        t = m["type"]
        if t.endswith("response.start"):
            return {"type": t, "status": m["status"], "headers": [(b"x-own", b"1"), (b"content-type", b"text/plain")]}
        if t.endswith("response.body"):
            d = {"type": t, "body": m["body"].encode()}
            if m["more"]:
                d["more_body"] = True
            return d
        return {"type": t}

    async def main():
        loop_thread = threading.get_ident()

        class Custom:
            """A response the harness emits message by message, possibly failing."""

            def __init__(self, msgs, exc=None, at=0, mark=False):
                self.msgs, self.exc, self.at, self.mark = msgs, exc, at, mark

            async def __call__(self, scope, receive, send):
                for m in self.msgs:
                    f = full(m)
                    ev.append({"t": "emit", "m": norm(f)})
                    await send(f)
                if self.exc is not None:
                    exc = make(self.exc)
                    ev.append({"t": "raised", "x": record(exc), "at": self.at})
                    throw(exc)
                if self.mark:
                    ev.append({"t": "cdone"})

        inner_raise = raises["x"] if raises and raises["at"] == 1 else None

        async def ws_say(ws):
            for m in emits:
                f = {"websocket.accept": {"type": "websocket.accept"}, "websocket.send": {"type": "websocket.send", "text": m["body"]},
                     "websocket.close": {"type": "websocket.close", "code": m["status"], "reason": m["body"]}}[m["type"]]  # fmt: skip
                ev.append({"t": "emit", "m": norm(f)})
                if m["type"] == "websocket.accept":
                    await ws.accept()
                elif m["type"] == "websocket.send":
                    await ws.send_text(m["body"])
                else:
                    await ws.close(m["status"], m["body"])
            if inner_raise:
                exc = make(inner_raise)
                ev.append({"t": "raised", "x": record(exc), "at": 1})
                throw(exc)

        def answer():
            if inner_raise and not emits and scn["style"] % 2:
                exc = make(inner_raise)
                ev.append({"t": "raised", "x": record(exc), "at": 1})
                throw(exc)
            return Custom(emits, inner_raise, 1)

        # ---- endpoint
        ep = scn["ep"]
        if http:
            async def func(request):
                return answer()

            def sync(request):
                return answer()

            class Class(HTTPEndpoint):
                async def get(self, request):
                    return answer()

            class Raw:
                async def __call__(self, scope, receive, send):
                    await answer()(scope, receive, send)

            class BadMethod(HTTPEndpoint):
                async def post(self, request):
                    raise AssertionError

            route = {"func": lambda: Route("/x", func), "sync": lambda: Route("/x", sync), "class": lambda: Route("/x", Class),
                     "asgi": lambda: Route("/x", Raw()), "missing": lambda: Route("/y", func), "badmethod": lambda: Route("/x", func, methods=["PUT"]),
                     "badmethodclass": lambda: Route("/x", BadMethod)}[ep]()  # fmt: skip
        else:
            async def func(ws):
                await ws_say(ws)

            class Class(WebSocketEndpoint):
                async def on_connect(self, ws):
                    await ws_say(ws)

            class Raw:
                async def __call__(self, scope, receive, send):
                    await ws_say(WebSocket(scope, receive, send))

            route = {"func": lambda: WebSocketRoute("/x", func), "class": lambda: WebSocketRoute("/x", Class), "asgi": lambda: WebSocketRoute("/x", Raw())}[ep]()

        # ---- handlers
        def handler(hid, style):
            def begin(conn, exc):
                ok = isinstance(conn, Request if http else WebSocket) and conn.url.path == path
                ev.append({"t": "call", "h": hid, "x": ident(exc), "conn": ok, "thread": threading.get_ident() != loop_thread, "plain": style % 4 == 0})
                return outcomes.pop(0) if outcomes else {"a": "plain"}

            def finish(conn, exc, o):
                if o["a"] in ("raises", "reraise"):
                    new = exc if o["a"] == "reraise" else make(o["x"])
                    rec = record(new) if new is not exc else None
                    if rec is None:
                        rec = dict(record(exc))
                        known.pop(rec["id"])
                        rec["id"] = ident(exc)
                    ev.append({"t": "hraise", "x": rec})
                    throw(new)
                if o["a"] == "none":
                    ev.append({"t": "ret", "k": "none", "status": 0, "body": ""})
                    return None
                if o["a"] in ("partial", "custom"):
                    ev.append({"t": "ret", "k": "custom", "status": 0, "body": ""})
                    pre = "" if http else "websocket."
                    msgs = [{"type": pre + "http.response.start", "status": 471}, {"type": pre + "http.response.body", "body": "part", "more": True}]
                    if o["a"] == "custom":
                        msgs.append({"type": pre + "http.response.body", "body": "", "more": False})
                        return Custom(msgs, mark=True)
                    return Custom(msgs[: o.get("n", 1)], o["x"], 0)
                if o["a"] == "bye":
                    code, reason = 4100 + int(hid), "bye" if style % 8 < 4 else ""
                    ev.append({"t": "ret", "k": "close", "status": code, "body": reason})
                    return WebSocketClose(code, reason or None) if style % 2 else WebSocketClose(reason=reason, code=code)
                st = 460 + int(hid)
                kind = style % 3 if http else 0
                if sfail and kind == 2:
                    kind = 1  # a streaming response has its own way with clients gone (C14)
                ev.append({"t": "ret", "k": "plain", "status": st, "body": f'"h{hid}"'})
                if kind == 0:
                    return PlainTextResponse(f'"h{hid}"', st)
                if kind == 1:
                    return JSONResponse(f"h{hid}", st)

                async def gen():
                    yield '"h'
                    yield hid + '"'

                return StreamingResponse(gen(), st)

            async def afn(conn, exc):
                o = begin(conn, exc)
                if o["a"] == "close":
                    f = {"type": "websocket.close", "code": 4000 + int(hid), "reason": "h"}
                    ev.append({"t": "emit", "m": norm(f)})
                    try:
                        await conn.close(f["code"], "h")
                    except Exception as e:
                        ev.append({"t": "hraise", "x": record(e)})
                        raise
                    o = {"a": "none"}
                return finish(conn, exc, o)

            def sfn(conn, exc):
                return finish(conn, exc, begin(conn, exc))

            class Callable:
                async def __call__(self, conn, exc):
                    return await afn(conn, exc)

            return {0: sfn, 1: afn, 2: Callable(), 3: functools.partial(afn)}[style % 4]

        hands = {}

        def not_mine(conn, exc):
            return PlainTextResponse("of another application", 599)

        def hand(hid):
            if hid not in hands:
                style = (scn["style"] + int(hid)) % 12
                if any(o["a"] == "close" for o in outcomes) and style % 4 == 0:
                    style += 1  # closing needs the event loop
                hands[hid] = handler(hid, style)
            return hands[hid]

        def key(k):
            return int(k) if k.isdigit() else C[k]

        class Mid:
            def __init__(self, app, index):
                self.app, self.index = app, index

            async def __call__(self, scope, receive, send):
                mine = raises is not None and raises["at"] == self.index + 1
                late = later is not None and later["at"] == self.index + 1
                if mine and not emits and scn["style"] % 2:
                    self.throw(raises["x"])
                await self.app(scope, receive, send)
                if mine:
                    self.throw(raises["x"])
                if late:
                    self.throw(later["x"])

            def throw(self, x):
                exc = make(x)
                ev.append({"t": "raised", "x": record(exc), "at": self.index + 1})
                throw(exc)

        # ---- applications, innermost first
        app = None
        pos = 1 if ep in ("func", "sync") else 0
        for i, a in enumerate(scn["apps"]):
            pos += 1
            mids = [Middleware(Mid, index=pos + j + 1) for j in range(a["mids"])][::-1]  # the first of a list is the outermost
            pos += a["mids"] + 1
            if scn["bare"]:
                async def raw(scope, receive, send):
                    scope.setdefault("app", None)
                    await (route.app if http else route.app)(scope, receive, send)

                app = ExceptionMiddleware(raw, handlers={key(k): hand(h) for k, h in a["tab"]})
                for m in reversed(mids):
                    app = m.cls(app, *m.args, **m.kwargs)
                app = ServerErrorMiddleware(app, handler=hand(a["eh"]) if a["eh"] != "0" else None, debug=a["debug"])
                continue
            routes = [route] if i == 0 else [Mount("/in", app=app)]
            table = {key(k): hand(h) for k, h in a["tab"]}
            if a["eh"] != "0":
                k = [500, Exception][scn["style"] % 2]
                table = {k: hand(a["eh"]), **table} if scn["style"] % 4 < 2 else {**table, k: hand(a["eh"])}
            late_added = scn["style"] % 5 == 0
            s = Starlette(debug=a["debug"], routes=routes, middleware=mids, exception_handlers=None if late_added else table)
            if late_added:
                for k, h in table.items():
                    if scn["style"] % 2:
                        s.add_exception_handler(k, h)
                    else:
                        with warnings.catch_warnings():
                            warnings.simplefilter("ignore")
                            ev.append({"t": "deco", "same": s.exception_handler(k)(h) is h})
            elif scn["style"] % 3 == 0:
                # another application made from the same table, which then gets handlers of its own
                other = Starlette(exception_handlers=table)
                for k in [*table, 404, 405, 418, 500, C["HTTPException"], Exception]:
                    other.add_exception_handler(k, not_mine)
            app = s

        if router:
            # raised by the router itself (or the route): known beforehand
            m = "missing" == ep
            ev.append({"t": "raised", "at": 1, "x": {"id": "x-router", "mro": ["HTTPException", "Exception"], "status": 404 if m else 405,
                       "detail": "Not Found" if m else "Method Not Allowed", "hdrs": [] if m else [["allow", "PUT" if ep == "badmethod" else "POST"]], "code": 0, "reason": ""}})  # fmt: skip

        raw_sent = []

        async def send(m):
            raw_sent.append(m)
            if len(raw_sent) == sfail:
                gone = OSError("gone")
                ev.append({"t": "sfail", "m": norm(m), "x": record(gone)})
                raise gone
            ev.append({"t": "sent", "m": norm(m)})

        inbox = [{"type": "http.request", "body": b""}] if http else [{"type": "websocket.connect"}, {"type": "websocket.disconnect", "code": 1000}]

        async def receive():
            return inbox.pop(0) if inbox else {"type": "http.disconnect"}

        headers = [("host", "h")] + ([("accept", ["text/html", "application/json, text/html;q=0.5"][scn["style"] % 2])] if scn["html"] else [("accept", "*/*")] if scn["style"] % 2 else [])
        scope = asgi.http_scope("GET", path, b"", headers) if http else asgi.ws_scope(path, b"", headers, extensions={"websocket.http.response": {}})
        exc = None
        try:
            await app(scope, receive, send)
        except Exception as e:
            exc = e
        chain, c = [], exc
        while c is not None and len(chain) < 10:
            c = c.__cause__ or c.__context__
            if c is not None:
                chain.append(ident(c))
        # ---- debug pages
        pages = 0
        for n, m in enumerate(raw_sent):
            if m["type"] == "http.response.start" and m["status"] == 500:
                ct = dict(m["headers"]).get(b"content-type", b"").decode()
                body = b"".join(x.get("body", b"") for x in raw_sent[n + 1 :]).decode("utf-8", "replace")
                if len(body) < 300:
                    continue
                pages += 1
                snips, html = [], ct.startswith("text/html")
                for tok, full_text in TOKENS.items():
                    at, got = body.find(tok), 0
                    while at >= 0 and got < 3:
                        snips.append([full_text, body[at : at + 7 * len(full_text)]])
                        got += 1
                        at = body.find(tok, at + 1)
                ev.append({"t": "page", "html": html, "wants": scn["html"], "snips": snips if html else [],
                           "shown": [k for k in known if f"#{k}!" in body]})  # fmt: skip
        x = ident(exc)
        ev.append({"t": "end", "x": x, "chain": chain, "pages": pages})

    sched.run(main, backend=scn["backend"])
    return {"cfg": {"typ": scn["typ"], "layers": layers}, "ev": ev}


XC = {"xA": "A", "xB": "B", "x404": "HTTPException", "x304": "H", "xW": "W"}


def from_model(b, rng):
    ls = b["cfg"]["layers"]
    apps, i = [], 0
    ep = rng.choice(["class", "asgi"])
    if ls[0]["k"] == "h" and ls[1]["k"] == "h":
        ep = rng.choice(["func", "sync"] if b["cfg"]["typ"] == "http" else ["func"])
        i = 1
    while i < len(ls):
        a = {"tab": ls[i]["tab"], "mids": 0}
        i += 1
        while ls[i]["k"] == "m":
            a["mids"] += 1
            i += 1
        a["eh"], a["debug"] = ls[i]["h"], ls[i]["debug"]
        i += 1
        apps.append(a)
    hist = []
    for a in b["hist"]:
        if "x" in a:
            x = a["x"]
            a = {**a, "x": {"cls": XC[x["id"]], "status": x["status"], "detail": x["detail"], "hdrs": x["hdrs"], "code": x["code"], "reason": x["reason"]}}
        hist.append(a)
    return {"typ": b["cfg"]["typ"], "apps": apps, "ep": ep, "bare": False, "hist": hist, "html": rng.random() < 0.5, "style": rng.randrange(120),
            "backend": rng.choice(["asyncio", "asyncio", "trio"])}  # fmt: skip


def rnd(rng, focus):
    http = rng.random() < 0.75
    hs = ["A", "B", "Mx", "D", "H", "HB", "HTTPException", "LookupError", "KeyError", "RuntimeError", "Odd", "Up", "Up", "Exception"]

    def exc():
        cls = rng.choice(hs if http else hs + ["W", "W", "WebSocketException"])
        return {"cls": cls, "status": rng.choice([404, 404, 418, 204, 304, 500, 401]), "detail": rng.choice(["nf", "d <b>", ""]), "hdrs": rng.choice([[], [], [["X-E", "1"], ["x-f", "2"]]]),
                "code": rng.choice([1008, 4001]), "reason": rng.choice(["", "r"])}  # fmt: skip

    bare = rng.random() < 0.15
    keys = [k for k in dict.fromkeys(hs) if k != "Exception"] + ["OSError"] + ["404", "418", "304"] + ([] if http else ["W", "WebSocketException"])
    if bare:
        keys += ["Exception", "500"]
    p = 0.15 if focus == "C02" else 0.35
    hid = [0]

    def tab():
        t = []
        for k in keys:
            if rng.random() < p:
                hid[0] += 1
                t.append([k, str(hid[0] % 9 + 1 + 10 * (hid[0] // 9))])
        rng.shuffle(t)
        return t

    apps = []
    for _ in range(1 if bare else rng.choice([1, 1, 2, 3])):
        apps.append({"tab": tab(), "mids": rng.choice([0, 0, 1, 2]), "eh": rng.choice(["0", "0", "97", "98"]), "debug": rng.random() < 0.3})
    if http:
        ep = rng.choice(["func", "sync", "class", "asgi"] + ([] if bare else ["missing", "badmethod", "badmethodclass"] if focus == "C03" or rng.random() < 0.3 else []))
    else:
        ep = rng.choice(["func", "class", "asgi"])
    hist = []
    legal = ([{"type": "http.response.start", "status": rng.choice([200, 500, 404])}, {"type": "http.response.body", "body": "b", "more": True},
              {"type": "http.response.body", "body": "", "more": True}, {"type": "http.response.body", "body": "e", "more": False}] if http else
             [{"type": "websocket.accept", "body": "", "status": 0}, {"type": "websocket.send", "body": "t", "status": 0}, {"type": "websocket.close", "body": "bye", "status": 3000}])  # fmt: skip
    router = ep in ("missing", "badmethod", "badmethodclass")
    mids = [i + 1 for i, y in enumerate(layers_of({"apps": apps, "ep": ep})) if y["k"] == "m"]
    if not router:
        n = rng.choice([0, 0, 1, 1, 2, 3, len(legal)])
        fail = rng.random() < 0.85
        if not fail:
            n = len(legal)
        if not http and n == 1 and rng.random() < 0.3:
            hist.append({"a": "emit", "m": legal[2]})
        else:
            hist += [{"a": "emit", "m": m} for m in legal[:n]]
        if fail:
            at = rng.choice([1, 1, 1] + [i + 1 for i in mids])
            hist.append({"a": "raise", "x": exc(), "at": at})
    outs = [{"a": "plain"}, {"a": "plain"}, {"a": "plain"}, {"a": "none"}, {"a": "raises"}, {"a": "reraise"}, {"a": "partial"}, {"a": "custom"}]
    if not http:
        outs = [{"a": "plain"}, {"a": "none"}, {"a": "close"}, {"a": "close"}, {"a": "bye"}, {"a": "bye"}, {"a": "raises"}, {"a": "reraise"}]
    if any(a["eh"] != "0" for a in apps):
        outs = [o for o in outs if o["a"] != "none"]
    for _ in range(4):
        o = dict(rng.choice(outs))
        if o["a"] in ("raises", "partial"):
            o["x"] = exc()
            o["n"] = rng.choice([0, 1, 2])
        hist.append(o)
    if mids and rng.random() < 0.2:
        hist.append({"a": "later", "x": exc(), "at": rng.choice(mids) + 1})
    if http and rng.random() < 0.2:
        hist.append({"a": "sfail", "n": rng.choice([1, 1, 1, 2, 3])})
    # an exception a middleware raises on its own comes once
    r = next((a for a in hist if a["a"] == "raise"), None)
    if r and r["at"] > 1:
        hist = [a for a in hist if a["a"] != "later"]
    return {"typ": "http" if http else "websocket", "apps": apps, "ep": ep, "bare": bare, "hist": hist, "html": rng.random() < 0.5, "style": rng.randrange(120),
            "backend": rng.choice(["asyncio", "asyncio", "asyncio", "trio"])}  # fmt: skip


def mut_swallow(t, rng):
    e = t["ev"][-1]
    if e["x"]:
        e["x"] = ""
        return t


def mut_wrapped(t, rng):
    e = t["ev"][-1]
    if e["x"]:
        e["x"] = "unknown:X"
        return t


def mut_twice(t, rng):
    for i, e in enumerate(t["ev"]):
        if e["t"] == "sent" and e["m"]["type"].endswith("response.start"):
            t["ev"].insert(i + 1, e)
            return t


def mut_other_handler(t, rng):
    for e in t["ev"]:
        if e["t"] == "call":
            e["h"] = "77"
            return t


def mut_called_again(t, rng):
    for i, e in enumerate(t["ev"]):
        if e["t"] == "ret":
            t["ev"][i:i] = [x for x in t["ev"] if x["t"] == "call"][:1]
            return t


def mut_status(t, rng):
    for e in t["ev"]:
        if e["t"] == "sent" and e["m"]["status"] >= 400:
            e["m"]["status"] += 1
            return t


def mut_raw_markup(t, rng):
    for e in t["ev"]:
        if e["t"] == "page" and e["snips"]:
            e["snips"][0][1] = e["snips"][0][0] + "xx"
            return t


def mut_after(t, rng):
    for i, e in enumerate(t["ev"]):
        if e["t"] == "end" and e["x"]:
            t["ev"].insert(i, {"t": "sent", "m": {"type": "http.response.body", "status": 0, "body": "", "more": False, "hdrs": []}})
            return t


MUTATORS = [mut_swallow, mut_wrapped, mut_twice, mut_other_handler, mut_called_again, mut_status, mut_raw_markup, mut_after]


def run(c, focus):
    c.model("MC_Errors", min_states=15000)
    gen = c.behaviours("MC_Errors", "MC_Errors_gen.cfg")
    if focus == "C02":
        gen = [b for b in gen if not any(y["tab"] for y in b["cfg"]["layers"]) or c.rng.random() < 0.3]
    gen = c.rng.sample(gen, min(len(gen), c.n(2500, 100000)))
    scns = [from_model(b, c.rng) for b in gen] + [rnd(c.rng, focus) for _ in range(c.n(3500, 60000))]
    runs = list(zip(scns, core.run_pool(execute, scns)))
    c.validate("Trace_Errors", runs, mutators=MUTATORS)
