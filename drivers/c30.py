"""C30: whole lives of a test client against scripted raw applications: contexts, requests and websocket sessions, each side writing down what it does and sees."""

from __future__ import annotations

import base64
import functools
import json
from urllib.parse import quote, urlencode

import core


class AppErr(Exception):
    pass


def lat(hs):
    return [[bytes(k).decode("latin-1"), bytes(v).decode("latin-1")] for k, v in hs]


def low(hs):
    return [[k.lower(), v] for k, v in hs]


def flat(d):
    return ";".join(f"{k}={d[k]}" for k in sorted(d))


def msg(ty, kind="", data="", code=0, reason=""):
    return {"ty": ty, "kind": kind, "data": data, "code": code, "reason": reason}


def txt(b):
    return b.decode("latin-1")


class App:
    def __init__(self, ev):
        self.ev = ev
        self.life = []
        self.http = None
        self.ws = None
        self.err = None

    def saw(self, scope):
        self.ev.append({"t": "scope", "saw": {"method": scope.get("method", ""), "path": scope["path"], "raw": txt(scope["raw_path"]), "query": txt(scope["query_string"]), "scheme": scope["scheme"],
                                              "server": "|".join(map(str, scope["server"])), "root": scope["root_path"], "client": "|".join(map(str, scope["client"])), "headers": lat(scope["headers"]),
                                              "subs": list(scope.get("subprotocols", [])), "state": flat(scope["state"])}})  # fmt: skip
        scope["state"]["mine"] = 1

    def fail(self):
        self.err = AppErr()
        self.ev.append({"t": "raise"})
        raise self.err

    async def run(self, scope, receive, send):
        await {"lifespan": self.lifespan, "http": self.request, "websocket": self.session}[scope["type"]](scope, receive, send)

    async def lifespan(self, scope, receive, send):
        up, down, key = self.life.pop(0)
        for phase, past, how in (("up", "upped", up), ("down", "downed", down)):
            m = await receive()
            assert m["type"] == {"up": "lifespan.startup", "down": "lifespan.shutdown"}[phase]
            if phase == "up":
                scope["state"].update(key)
            self.ev.append({"t": phase})
            self.ev.append({"t": past, "how": how, "state": flat(scope["state"])})
            name = m["type"]
            if how == "raise":
                self.err = AppErr()
                raise self.err
            if how in ("failed", "reported"):
                await send({"type": name + ".failed", "message": "no"})
                if how == "failed":
                    self.err = AppErr()
                    raise self.err
                return
            await send({"type": name + ".complete"})

    async def request(self, scope, receive, send):
        p, ev = self.http.pop(0), self.ev
        self.saw(scope)

        async def read():
            m = await receive()
            if m["type"] == "http.request":
                ev.append({"t": "body", "body": txt(m.get("body", b"")), "more": m.get("more_body", False)})
                return m.get("more_body", False)
            ev.append({"t": "gone"})
            return False

        if p["read"] == "before":
            while await read():
                pass
        if p["exc"] == 0:
            self.fail()
        if p["template"]:
            ev.append({"t": "info", "name": p["template"]})
            await send({"type": "http.response.debug", "info": {"template": p["template"], "context": {"c": p["template"]}}})
        hs = [(k.encode("latin-1"), v.encode("latin-1")) for k, v in p["headers"]]
        ev.append({"t": "start", "status": p["status"], "headers": lat(hs)})
        start = {"type": "http.response.start", "status": p["status"], "headers": hs}
        if not hs and p["spare"]:
            del start["headers"]
        await send(start)
        if p["exc"] == 1:
            self.fail()
        if p["read"] == "between":
            await read()
        for i, c in enumerate(p["chunks"]):
            more = i + 1 < len(p["chunks"])
            ev.append({"t": "data", "body": c, "more": more})
            m = {"type": "http.response.body", "body": c.encode("latin-1"), "more_body": more}
            if p["spare"]:
                if not c:
                    del m["body"]
                if not more:
                    del m["more_body"]
            await send(m)
            if p["exc"] == 2 + i:
                self.fail()
        for _ in range(p["after"]):
            await read()
        if p["exc"] == 99:
            self.fail()

    async def session(self, scope, receive, send):
        p, ev = self.ws, self.ev
        self.saw(scope)
        data = list(p["adata"])

        async def recv():
            m = await receive()
            ty = {"websocket.connect": "connect", "websocket.disconnect": "disconnect", "websocket.receive": "data"}[m["type"]]
            if ty == "data":
                kind = "text" if m.get("text") is not None else "bytes"
                ev.append({"t": "arecv", "m": msg("data", kind, m["text"] if kind == "text" else txt(m["bytes"]))})
            elif ty == "connect":
                ev.append({"t": "arecv", "m": msg("connect")})
            else:
                ev.append({"t": "arecv", "m": msg("disconnect", code=m["code"], reason=str(m["reason"]))})
            return ty

        for op in p["aops"]:
            if op == "recv":
                await recv()
            elif op == "accept":
                a = p["accept"]
                ev.append({"t": "asend", "m": msg("accept", str(a["sub"]), json.dumps(a["headers"]))})
                m = {"type": "websocket.accept"}
                if a["sub"] or not p["spare"]:
                    m["subprotocol"] = a["sub"]
                if a["headers"] or not p["spare"]:
                    m["headers"] = [(k.encode(), v.encode()) for k, v in a["headers"]]
                await send(m)
            elif op in ("refuse", "close"):
                ev.append({"t": "asend", "m": msg("close", code=p["bye"][0], reason=p["bye"][1])})
                m = {"type": "websocket.close", "code": p["bye"][0], "reason": p["bye"][1]}
                if p["spare"] and p["bye"] == (1000, ""):
                    m = {"type": "websocket.close"}
                elif p["spare"] and not p["bye"][1]:
                    m["reason"] = None
                await send(m)
            elif op == "deny":
                ev.append({"t": "asend", "m": msg("deny", data=json.dumps(p["deny"][1]), code=p["deny"][0])})
                m = {"type": "websocket.http.response.start", "status": p["deny"][0], "headers": [(k.encode(), v.encode()) for k, v in p["deny"][1]]}
                if p["spare"] and not p["deny"][1]:
                    del m["headers"]
                await send(m)
            elif op in ("deny-body", "deny-end"):
                _, d = data.pop(0)
                ev.append({"t": "asend", "m": msg("data", "bytes", txt(d.encode()))})
                m = {"type": "websocket.http.response.body", "body": d.encode(), "more_body": op == "deny-body"}
                if p["spare"] and not d:
                    del m["body"]
                await send(m)
            elif op == "send":
                kind, d = data.pop(0)
                k = "text" if kind in ("text", "json") else "bytes"
                ev.append({"t": "asend", "m": msg("data", k, txt(d.encode()) if kind == "bjson" else d)})
                if k == "text":
                    await send({"type": "websocket.send", "text": d, "bytes": None} if p["spare"] else {"type": "websocket.send", "text": d})
                else:
                    await send({"type": "websocket.send", "bytes": d.encode("latin-1") if kind == "bytes" else d.encode()})
            elif op == "raise":
                self.fail()
            elif op == "end":
                return
        if "accept" in p["aops"] and "close" not in p["aops"]:
            while await recv() != "disconnect":
                pass


def shaped(shape, app):
    if shape == "func":

        async def f(scope, receive, send):
            await app.run(scope, receive, send)

        return f
    if shape == "object":

        class O:
            async def __call__(self, scope, receive, send):
                await app.run(scope, receive, send)

        return O()
    if shape == "method":
        return app.run
    if shape == "partial":

        async def g(x, scope, receive, send):
            await app.run(scope, receive, send)

        return functools.partial(g, 1)
    if shape == "asgi2":

        def two(scope):
            async def inner(receive, send):
                await app.run(scope, receive, send)

            return inner

        return two

    class Two:
        def __init__(self, scope):
            self.scope = scope

        async def __call__(self, receive, send):
            await app.run(self.scope, receive, send)

    return Two


def execute(scn):
    from starlette.testclient import TestClient, WebSocketDenialResponse
    from starlette.websockets import WebSocketDisconnect

    ev = []
    app = App(ev)
    client = TestClient(shaped(scn["shape"], app), base_url=scn["base"], raise_server_exceptions=scn["raise"], root_path=scn["root"], backend=scn["backend"], client=scn["client"], headers=scn["headers"] and dict(scn["headers"]), **({} if scn["follow"] is None else {"follow_redirects": scn["follow"]}))

    def asked(req):
        """the request with what the client itself adds to it"""
        have = {k for k, _ in req["headers"]}
        return {**req, "headers": req["headers"] + [h for h in low((scn["headers"] or {}).items()) if h[0] not in have]}

    def http(op):
        app.http = [op["app"], *(h["app"] for h in op["then"])]
        app.err = None
        follow = scn["follow"] if op["follow"] is None else op["follow"]
        req = {**asked(op["req"]), "then": []}
        last = req
        for h in op["then"] if follow is not False else []:
            last["then"] = [{**asked(h["req"]), "then": []}]
            last = last["then"][0]
        ev.append({"t": "ask", "ws": False, "req": req})
        hs = [(k, v.encode("latin-1")) for k, v in op["give"]]
        body = op["req"]["body"].encode("latin-1")
        kw = {"bytes": {"content": body}, "gen": {"content": iter([body[:1], body[1:]])}, "none": {}, "str": {"content": op["req"]["body"]}, "json": {"json": op["value"]}, "data": {"data": op["value"]}, "files": {"files": op["value"]}}[op["bodykind"]]
        if op["bodykind"] == "files":
            kw["files"] = {k: (n, d.encode("latin-1"), c) for k, (n, d, c) in op["value"].items()}
        if op["follow"] is not None:
            kw["follow_redirects"] = op["follow"]
        for k, v in op["also"].items():
            kw[k] = tuple(v) if k == "auth" else v
        if op["req"]["method"] in op["short"] and not ({"content", "json", "data", "files"} & set(kw) and op["req"]["method"] not in ("POST", "PUT", "PATCH")):
            fn = getattr(client, op["req"]["method"].lower())
        else:
            fn = functools.partial(client.request, op["req"]["method"])
        out = {"t": "result", "how": "raise", "status": 0, "headers": [], "body": "", "same": False, "info": ""}
        try:
            r = fn(op["url"], headers=hs, **kw)
        except Exception as exc:  # noqa: BLE001
            out["same"] = exc is app.err
            if not out["same"]:
                out["exc"] = repr(exc)
        else:
            t = getattr(r, "template", "")
            out.update(how="response", status=r.status_code, headers=lat(r.headers.raw), body=txt(r.content), info=t if t == "" or r.context == {"c": t} else "?")
        ev.append(out)

    def ws(op):
        app.ws = op["app"]
        app.err = None
        ev.append({"t": "ask", "ws": True, "req": {**asked(op["req"]), "then": []}})
        session = None
        given = dict(op["give"])
        before = dict(given)
        try:
            session = client.websocket_connect(op["url"], op["subs"], headers=given).__enter__() if given or op["subs"] else client.websocket_connect(op["url"]).__enter__()
        except WebSocketDenialResponse as exc:
            ev.append({"t": "denied", "code": exc.status_code, "data": json.dumps([h for h in lat(exc.headers.raw) if h[0] != "Content-Length"]), "body": txt(exc.content)})
            return
        except WebSocketDisconnect as exc:
            ev.append({"t": "refused", "code": exc.code, "reason": exc.reason})
            return
        except Exception as exc:  # noqa: BLE001
            ev.append({"t": "failed", "same": exc is app.err, "exc": repr(exc)})
            return
        assert given == before
        ev.append({"t": "opened", "kind": str(session.accepted_subprotocol), "data": json.dumps(lat(session.extra_headers or []))})
        adata = [d for d in op["app"]["adata"]]
        cdata = list(op["cdata"])
        try:
            for o in op["cops"]:
                if o == "recv":
                    kind = adata.pop(0)[0] if adata else op["guess"]
                    k = "text" if kind in ("text", "json") else "bytes"
                    if op["rawrecv"]:
                        m = session.receive()
                        if m["type"] == "websocket.close":
                            session._raise_on_close(m)
                        d = m["text"] if k == "text" else txt(m["bytes"])
                    elif kind == "json":
                        d = json.dumps(session.receive_json(), separators=(",", ":"), ensure_ascii=False)
                    elif kind == "bjson":
                        d = txt(json.dumps(session.receive_json(mode="binary"), separators=(",", ":"), ensure_ascii=False).encode())
                    elif kind == "text":
                        d = session.receive_text()
                    else:
                        d = txt(session.receive_bytes())
                    ev.append({"t": "crecv", "m": msg("data", k, d)})
                elif o == "send":
                    kind, d = cdata.pop(0)
                    k = "text" if kind in ("text", "json") else "bytes"
                    ev.append({"t": "csend", "m": msg("data", k, txt(d.encode()) if kind == "bjson" else d)})
                    {"text": lambda: session.send_text(d), "bytes": lambda: session.send_bytes(d.encode("latin-1")), "json": lambda: session.send_json(json.loads(d)),
                     "bjson": lambda: session.send_json(json.loads(d), mode="binary")}[kind]()  # fmt: skip
                elif o == "close":
                    code, reason = op["quit"]
                    ev.append({"t": "csend", "m": msg("disconnect", code=code, reason=str(reason))})
                    session.close(code, reason) if reason is not None else session.close(code)
        except WebSocketDisconnect as exc:
            ev.append({"t": "closed", "code": exc.code, "reason": exc.reason})
        except Exception as exc:  # noqa: BLE001
            ev.append({"t": "cfail", "exc": type(exc).__name__})
        ev.append({"t": "leave"})
        out = {"t": "left", "raised": False, "same": True}
        try:
            session.__exit__(None, None, None)
        except Exception as exc:  # noqa: BLE001
            out.update(raised=True, same=exc is app.err)
        ev.append(out)

    for op in scn["ops"]:
        if op["op"] in ("enter", "exit"):
            if op["op"] == "enter":
                app.life.append(op["life"])
            app.err = None
            ev.append({"t": op["op"]})
            out = {"t": op["op"] + "ed", "raised": False, "same": True}
            try:
                client.__enter__() if op["op"] == "enter" else client.__exit__(None, None, None)
            except Exception as exc:  # noqa: BLE001
                out.update(raised=True, same=exc is app.err or app.err is None)
            ev.append(out)
            if op["op"] == "enter" and out["raised"]:
                scn = {**scn, "skip": True}
            else:
                scn = {**scn, "skip": False}
        elif op["op"] == "http":
            http(op)
        else:
            ws(op)
        if scn.get("skip"):
            break
    return {"cfg": {"raise": scn["raise"], "root": scn["root"], "client": "|".join(map(str, scn["client"]))}, "ev": ev}


BASES = [("http://testserver", "http", "testserver|80", "testserver", ""), ("https://ex.org:8443", "https", "ex.org|8443", "ex.org:8443", ""), ("http://[::1]:9", "http", "::1|9", "[::1]:9", ""),
         ("http://testserver/api", "http", "testserver|80", "testserver", "/api"), ("https://a.b", "https", "a.b|443", "a.b", ""), ("http://[2001:db8::1]", "http", "2001:db8::1|80", "[2001:db8::1]", "")]  # fmt: skip
SEGS = ["a", "b c", "é", "%41", "%", "50%25", "x;y", "a/b", "日", "..a", "q?r", "h#i", "+", "a=b"]
TEXT = ["", "x", "hi there", "\x00\x01", "a\r\nb", "é" * 3, "z" * 5000]


def word(rng):
    return rng.choice(TEXT)


def hdrs(rng, req):
    pool = [("x-a", "1"), ("X-Mixed", "Va Lue"), ("x-a", "2"), ("x-lat", "caf\xe9"), ("accept", "text/x"), ("cookie", "a=b; c=d"), ("user-agent", "me"), ("x-empty", ""), ("x-utf", "Ã©")]
    if not req:
        pool += [("content-type", "text/plain"), ("set-cookie", "k=v"), ("set-cookie", "k2=v2"), ("content-length", "0"), ("Vary", "x, y")]
        pool = [h for h in pool if h[0] != "content-length"]
    hs = rng.sample(pool, rng.randint(0, 4))
    return hs


def target(rng, base, ws):
    b = rng.choice(BASES)
    segs = [rng.choice(SEGS) for _ in range(rng.randint(0, 3))]
    path = "/" + "/".join(segs)
    raw = quote(path, safe="/")
    query = rng.choice(["", "", "a=1", "a=1&a=2", "q=%C3%A9&r=%20", "x", "a=b=c"])
    tail = raw + ("?" + query if query else "")
    if ws:
        kind = rng.choice(["rel", "abs"])
        if kind == "rel":
            return tail, {"path": path, "raw": raw, "query": query, "scheme": "ws", "server": "testserver|80", "host": "testserver"}
        sch = {"http": "ws", "https": "wss"}[b[1]]
        root = sch + "://" + b[0].split("//")[1].split("/")[0]
        return root + tail, {"path": path, "raw": raw, "query": query, "scheme": sch, "server": b[2], "host": b[3]}
    if rng.random() < 0.6:
        b = next(x for x in BASES if x[0] == base)
        return tail, {"path": b[4] + path, "raw": b[4] + raw, "query": query, "scheme": b[1], "server": b[2], "host": b[3]}
    root = b[0].split("//")[0] + "//" + b[0].split("//")[1].split("/")[0]
    return root + tail, {"path": path, "raw": raw, "query": query, "scheme": b[1], "server": b[2], "host": b[3]}


def http_op(rng, base, method=None, hop=0.15):
    url, req = target(rng, base, False)
    method = method or rng.choice(["GET", "POST", "HEAD", "PUT", "DELETE", "OPTIONS", "PATCH", "PROPFIND"])
    give = hdrs(rng, True)
    body, kind, value, more = "", "none", None, []
    if method in ("POST", "PUT", "PATCH", "PROPFIND") and rng.random() < 0.8:
        body, kind = word(rng), rng.choice(["bytes", "gen", "str"])
        if kind == "str":
            body = body if body.isascii() else "plain"
        elif rng.random() < 0.15 and "content-type" not in {h.lower() for h, _ in give}:
            kind, body = "files", ""
            give.append(("content-type", "multipart/form-data; boundary=BoUnD"))
            value = {k: (rng.choice(["n.txt", "a b"]), word(rng), rng.choice(["text/plain", "x/y"])) for k in rng.sample(["f", "g g", "h"], rng.choice([1, 2]))}
            for k, (n, d, ct) in value.items():
                body += f'--BoUnD\r\nContent-Disposition: form-data; name="{k}"; filename="{n}"\r\nContent-Type: {ct}\r\n\r\n{d}\r\n'
            body += "--BoUnD--\r\n"
        elif rng.random() < 0.3:
            kind = rng.choice(["json", "data"])
            value = rng.choice([{"a": 1}, [1, "x y"], "s", 7, "caf\u00e9"]) if kind == "json" else rng.choice([{"a": "1"}, {"a b": "\u00e9&", "c": ["1", "2"]}, {}])
            body = (json.dumps(value, separators=(",", ":"), ensure_ascii=False) if kind == "json" else urlencode(value, doseq=True)).encode().decode("latin-1")
            given = {h.lower() for h, _ in give}
            if body and "content-type" not in given:
                more.append(["content-type", {"json": "application/json", "data": "application/x-www-form-urlencoded"}[kind]])
    also = {}
    if rng.random() < 0.2 and not req["query"]:
        also["params"] = rng.choice([{"p": "1"}, {"p": ["1", "2"], "q": "a b"}, {"x": "\u00e9"}])
        req["query"] = urlencode(also["params"], doseq=True)
    if rng.random() < 0.15:
        also["auth"] = ["u", "p\u00e9"]
        more.append(["authorization", "Basic " + base64.b64encode("u:p\u00e9".encode()).decode()])
    if rng.random() < 0.15 and "cookie" not in {h.lower() for h, _ in give}:
        also["cookies"] = {"ck": "v1"}
    if rng.random() < 0.1:
        also["timeout"] = 5
    if rng.random() < 0.15:
        give.append(("host", "given.org"))
        req["host"] = "given.org"
    chunks = [word(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
    status = rng.choice([200, 200, 201, 204, 404, 418, 500, 304])
    if status in (204, 304):
        chunks = [""]
    exc = rng.choice([None] * 6 + [0, 1, 2, 3, 99])
    app = {"read": rng.choice(["before", "before", "between", "no"]), "exc": exc, "status": status, "headers": hdrs(rng, False), "chunks": chunks, "after": rng.choice([0, 0, 1, 3]), "spare": rng.random() < 0.3,
           "template": rng.choice(["", "", "t1"])}  # fmt: skip
    if app["after"] and app["read"] != "before":
        app["after"] = rng.choice([1, 2])
    then = []
    given = {h.lower() for h, _ in give}
    if rng.random() < hop and not also and not {"cookie", "host"} & given and kind != "gen":
        at, now, m, b = app, {**req, "headers": low(give) + more, "subs": []}, method, body
        for i in range(rng.choice([1, 1, 2])):
            at.update(exc=None, status=rng.choice([301, 302, 303, 307, 308]), template="")
            loc, to = target(rng, "http://testserver", False)
            if loc.startswith("/"):
                to.update({k: now[k] for k in ("scheme", "server", "host")})
                if loc.startswith("//"):
                    loc, to["path"], to["raw"] = "/.hop", "/.hop", "/.hop"
                    to["query"] = ""
            at["headers"] = [h for h in at["headers"] if h[0] != "set-cookie"] + [("location", loc)]
            if at["status"] == 303 and m != "HEAD" or at["status"] == 302 and m != "HEAD" or at["status"] == 301 and m == "POST":
                m, b = "GET", ""
            now = {**to, "method": m, "headers": now["headers"], "subs": [], "body": b}
            at = {**app, "headers": hdrs(rng, False), "status": rng.choice([200, 404]), "template": rng.choice(["", "t2"]), "chunks": [word(rng)]}
            then.append({"req": now, "app": at})
    return {"op": "http", "then": then, "follow": rng.choice([True, True, False, None]) if then else rng.choice([True, False, None]), "url": url, "give": give, "bodykind": kind, "value": value, "also": also, "short": ["GET", "HEAD", "DELETE", "OPTIONS", "POST", "PUT", "PATCH"] if rng.random() < 0.5 else [],
            "req": {**req, "method": method, "headers": low(give) + more, "subs": [], "body": body}, "app": app}  # fmt: skip


def data(rng):
    kind = rng.choice(["text", "bytes", "json", "bjson"])
    if "json" in kind:
        return kind, json.dumps(rng.choice([{"a": 1}, [1, "x"], "s", None, 7, "caf\u00e9", {"\u65e5": "\U0001f600"}]), separators=(",", ":"), ensure_ascii=False)
    return kind, word(rng)


def ws_op(rng, base, hist):
    url, req = target(rng, base, True)
    subs = rng.choice([None, None, ["a"], ["a", "b"], ["b", "a", "c"]])
    give = dict(rng.sample([("x-a", "1"), ("X-B", "two words"), ("cookie", "a=b")], rng.randint(0, 2)))
    aops = [h[2:] for h in hist if h[0] == "a"]
    cops = [h[2:] for h in hist if h[0] == "c"]
    adata = [data(rng) for o in aops if o in ("send", "deny-body", "deny-end")]
    app = {"aops": aops, "adata": adata, "spare": rng.random() < 0.4, "accept": {"sub": rng.choice([None] + (subs or [])), "headers": rng.choice([[], [["x-r", "1"], ["x-r", "2"]]])},
           "bye": rng.choice([(1000, ""), (4000, "reason"), (1008, ""), (1013, "later")]), "deny": rng.choice([(403, []), (401, [["x-d", "1"], ["x-d", "2"]]), (404, [])])}  # fmt: skip
    return {"op": "ws", "url": url, "give": give, "subs": subs, "cops": cops, "cdata": [data(rng) for o in cops if o == "send"], "quit": rng.choice([(1000, None), (1001, None), (4001, "x")]), "guess": rng.choice(["text", "bytes", "json"]),
            "rawrecv": rng.random() < 0.2, "req": {**req, "method": "", "headers": low(list(give.items())), "subs": subs or [], "body": ""}, "app": app}  # fmt: skip


def hop_op(rng, base, method, follow):
    """a request by one of the client's own methods that is answered with a redirect"""
    while True:
        o = http_op(rng, base, method, 1)
        if o["then"]:
            return {**o, "follow": follow, "short": [method]}


def life(rng, good):
    up = "complete" if good or rng.random() < 0.8 else rng.choice(["failed", "reported", "raise"])
    return (up, rng.choice(["complete"] * 5 + ["failed", "reported", "raise"]), rng.choice([{}, {"k": "v"}, {"k": "w", "n": 1}]))


def rnd(rng, hists):
    base = rng.choice(BASES)[0]
    ops = []
    inside = False
    for _ in range(rng.choice([1, 2, 3, 5])):
        k = rng.choice(["http", "http", "ws", "ws", "ctx"])
        if k == "ctx":
            ops.append({"op": "exit"} if inside else {"op": "enter", "life": life(rng, False)})
            inside = not inside
        elif k == "http":
            ops.append(http_op(rng, base))
        else:
            ops.append(ws_op(rng, base, rng.choice(hists)))
    if inside:
        ops.append({"op": "exit"})
    first = next((o for o in ops if o["op"] == "http"), None)
    if first and "cookies" in first["also"]:  # (later the client has cookies of its own)
        first["req"]["headers"].append(["cookie", "ck=v1"])
    return {"base": base, "ops": ops, "raise": rng.random() < 0.6, "root": rng.choice(["", "", "/root"]), "backend": rng.choice(["asyncio", "trio"]), "follow": rng.choice([None, None, True, False]), "client": rng.choice([("testclient", 50000), ("1.2.3.4", 7)]),
            "headers": rng.choice([None, None, {"user-agent": "ua"}, {"User-Agent": "UA"}, {"X-A": "from client", "x-c": "c"}, {"ACCEPT": "x/y"}]),
            "shape": rng.choice(["func", "object", "method", "partial", "asgi2", "asgi2class"])}  # fmt: skip


def pick(t, rng, ok):
    ks = [e for e in t["ev"] if ok(e)]
    return rng.choice(ks) if ks else None


def mut_scope(t, rng):
    e = pick(t, rng, lambda e: e["t"] == "scope")
    if e:
        k = rng.choice(["path", "raw", "query", "server", "root", "client"])
        e["saw"] = {**e["saw"], k: e["saw"][k] + "x"}
        return t


def mut_result(t, rng):
    e = pick(t, rng, lambda e: e["t"] == "result" and e["how"] == "response" and not any(x["t"] == "raise" for x in t["ev"]))
    if e:
        k = rng.choice(["status", "headers", "body", "info"])
        e[k] = {"status": e["status"] + 1, "headers": e["headers"] + [["a", "b"]], "body": e["body"] + "x", "info": "zz"}[k]
        return t


def mut_ws(t, rng):
    e = pick(t, rng, lambda e: e["t"] in ("arecv", "crecv"))
    if e:
        e["m"] = {**e["m"], "data": e["m"]["data"] + "x"}
        return t


def mut_hop(t, rng):
    """a redirect is not followed"""
    hops = [i for i, e in enumerate(t["ev"]) if e["t"] == "ask" and e["req"]["then"]]
    if hops:
        i = rng.choice(hops)
        k = [j for j in range(i, len(t["ev"])) if t["ev"][j]["t"] == "scope"][1]
        n = next(j for j in range(i, len(t["ev"])) if t["ev"][j]["t"] == "result")
        del t["ev"][k:n]
        return t


def mut_close(t, rng):
    e = pick(t, rng, lambda e: e["t"] in ("refused", "closed", "denied"))
    if e:
        e["code"] += 1
        return t


def mut_order(t, rng):
    es = [e for e in t["ev"] if e["t"] == "crecv"]
    for a, b in zip(es, es[1:]):
        if a["m"] != b["m"]:
            a["m"], b["m"] = b["m"], a["m"]
            return t


def mut_life(t, rng):
    i = [i for i, e in enumerate(t["ev"]) if e["t"] in ("up", "down")]
    if i:
        i = rng.choice(i)
        if rng.random() < 0.5:
            del t["ev"][i]
        else:
            t["ev"].insert(i, t["ev"][i])
        return t


def mut_raise(t, rng):
    e = pick(t, rng, lambda e: e["t"] in ("entered", "left") and not e["raised"])
    if e:
        e["raised"] = True
        return t


def run(c):
    c.model("MC_Client", "MC_Client_big.cfg" if c.thorough else None, min_states=20000)
    hists = [g["hist"] for g in c.behaviours("MC_Client", "MC_Client_gen.cfg")]
    rng = c.rng
    scns = []
    for h in hists if c.thorough else rng.sample(hists, min(len(hists), 900)):
        s = rnd(rng, hists)
        s["ops"] = [{"op": "enter", "life": life(rng, True)}, ws_op(rng, s["base"], h), {"op": "exit"}] if rng.random() < 0.5 else [ws_op(rng, s["base"], h)]
        scns.append(s)
    for method in ["GET", "HEAD", "DELETE", "OPTIONS", "POST", "PUT", "PATCH"]:
        for client in (None, True, False):
            for follow in (None, True, False):
                for _ in range(c.n(1, 10)):
                    s = rnd(rng, hists)
                    scns.append({**s, "follow": client, "ops": [hop_op(rng, s["base"], method, follow)]})
    scns += [rnd(rng, hists) for _ in range(c.n(1300, 15000))]
    runs = list(zip(scns, core.run_pool(execute, scns)))
    c.validate("Trace_Client", runs, mutators=[mut_scope, mut_result, mut_ws, mut_hop, mut_close, mut_order, mut_life, mut_raise])
