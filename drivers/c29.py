"""C29: several requests through one application with its layers shared, held at every point in turn; each also served alone, on an application of its own and afterwards."""

from __future__ import annotations

import base64
import contextvars
import gzip as gz
import hashlib
import json
import threading
from urllib.parse import quote

import anyio

import asgi
import core
import sched
from drivers.c28 import Gates

CV = contextvars.ContextVar("CV29", default="")
KINDS = ["async", "sync", "class", "stream", "syncstream", "raise", "http", "ws", "jinja", "depth"]


def signed(data):
    import itsdangerous

    return itsdangerous.TimestampSigner("k").sign(base64.b64encode(json.dumps(data).encode())).decode()


def unsigned(cookie):
    import itsdangerous

    return json.loads(base64.b64decode(itsdangerous.TimestampSigner("k").unsign(cookie)))


def flat(d):
    return ";".join(f"{k}={d[k]}" for k in sorted(d))


class Mine(Exception):
    pass


def build(scn, ev, gates, cur):
    """the application; cur = {'round': ...}; events only if ev is not None"""
    from starlette.applications import Starlette
    from starlette.authentication import AuthCredentials, AuthenticationBackend, SimpleUser, requires
    from starlette.background import BackgroundTask
    from starlette.endpoints import HTTPEndpoint
    from starlette.exceptions import HTTPException
    from starlette.middleware import Middleware
    from starlette.middleware.authentication import AuthenticationMiddleware
    from starlette.middleware.base import BaseHTTPMiddleware
    from starlette.middleware.cors import CORSMiddleware
    from starlette.middleware.gzip import GZipMiddleware
    from starlette.middleware.sessions import SessionMiddleware
    from starlette.middleware.trustedhost import TrustedHostMiddleware
    from starlette.requests import HTTPConnection, Request
    from starlette.responses import JSONResponse, StreamingResponse
    from starlette.routing import Host, Mount, Route, Router, WebSocketRoute
    from starlette.templating import Jinja2Templates

    import jinja2

    def num(conn):
        return conn.scope["n"]

    def look(conn):
        user = conn.scope.get("user")
        return {"id": conn.headers.get("x-own"), "q": flat(dict(conn.query_params)), "h": conn.headers.get("x-own") + "/" + ",".join(conn.headers.getlist("x-many")), "user": user.display_name if user else "",
                "host": conn.url.hostname, "state": getattr(conn.state, "own", ""), "ctx": CV.get()}  # fmt: skip

    def step(conn, w):
        if ev is not None:
            ev.append({"t": "step", "r": num(conn), "round": cur["round"], "w": w, "saw": look(conn)})

    async def gate(n):
        if cur["gated"]:
            await gates.a[n].wait()

    def tgate(n):
        if cur["gated"] and threading.get_ident() != cur["loop"]:
            gates.t[n].wait()

    def told(conn):
        if ev is not None:
            ev.append({"t": "ep", "r": num(conn), "pp": flat(conn.path_params), "sess": flat(conn.session)})

    def got(conn, body):
        if ev is not None:
            ev.append({"t": "read", "r": num(conn), "body": body})

    class Pure:
        def __init__(self, app):
            self.app = app

        async def __call__(self, scope, receive, send):
            if scope["type"] not in ("http", "websocket"):
                return await self.app(scope, receive, send)
            conn = HTTPConnection(scope)
            await gate(num(conn))
            conn.state.own = conn.headers["x-own"]
            tok = CV.set(conn.headers["x-own"])
            step(conn, "pure")
            await gate(num(conn))

            async def send2(m):
                step(conn, "send")
                await gate(num(conn))
                await send(m)

            await self.app(scope, receive, send2)
            step(conn, "after")
            CV.reset(tok)

    class Base(BaseHTTPMiddleware):
        async def dispatch(self, request, call_next):
            step(request, "base")
            await gate(num(request))
            if scn["eager"]:
                got(request, (await request.body()).decode())
            resp = await call_next(request)
            step(request, "based")
            await gate(num(request))
            resp.headers["x-base"] = request.headers["x-own"]
            return resp

    class Backend(AuthenticationBackend):
        async def authenticate(self, conn):
            await gate(num(conn))
            u = conn.headers.get("authorization")
            return (AuthCredentials(["a", u]), SimpleUser(u)) if u else None

    def report(conn, body):
        told(conn)
        had = flat({k: v for k, v in conn.session.items() if k != "left"})
        if conn.headers["x-session"] == "clear":
            conn.session.clear()
        elif conn.headers["x-session"] == "add":
            conn.session["left"] = conn.headers["x-own"]
        return {**look(conn), "pp": flat(conn.path_params), "body": body, "sess": had, "url": str(conn.url), "base": str(conn.base_url), "cookies": dict(conn.cookies),
                "root": conn.scope.get("root_path", ""), "client": list(conn.client or []), "scopes": list(conn.auth.scopes) if "auth" in conn.scope else []}  # fmt: skip

    async def read(request):
        parts = []
        if scn["stream"]:
            async for c in request.stream():
                step(request, "chunk")
                parts.append(c.decode())
        else:
            parts.append((await request.body()).decode())
        got(request, "".join(parts))
        return "".join(parts)

    def task(request):
        async def bg():
            await gate(num(request))
            step(request, "task")

        return BackgroundTask(bg)

    async def ep(request):
        step(request, "ep")
        await gate(num(request))
        return JSONResponse(report(request, await read(request)), background=task(request))

    def sync(request):
        step(request, "ep")
        tgate(num(request))
        d = report(request, "")
        tgate(num(request))
        step(request, "ep2")
        return JSONResponse(d)

    class Cls(HTTPEndpoint):
        async def dispatch(self):
            self.kept = None
            await super().dispatch()

        async def post(self, request):
            self.kept = request.headers["x-own"]
            step(request, "ep")
            await gate(num(request))
            body = await read(request)
            assert self.kept == request.headers["x-own"]
            return JSONResponse(report(request, body))

    async def stream(request):
        text = json.dumps(report(request, await read(request)))

        async def chunks():
            for i in range(0, len(text), 60):
                step(request, "item")
                await gate(num(request))
                yield text[i : i + 60]

        return StreamingResponse(chunks(), media_type="application/json", background=task(request))

    async def syncstream(request):
        text = json.dumps(report(request, await read(request)))

        def chunks():
            for i in range(0, len(text), 100):
                tgate(num(request))
                yield text[i : i + 100]

        return StreamingResponse(chunks(), headers={"x-s": request.headers["x-own"]})

    async def raises(request):
        d = report(request, await read(request))
        step(request, "ep")
        await gate(num(request))
        raise Mine(d)

    async def http(request):
        d = report(request, await read(request))
        await gate(num(request))
        raise HTTPException(418, json.dumps(d), headers={"x-e": request.headers["x-own"]})

    async def on_mine(request, exc):
        await gate(num(request))
        step(request, "handler")
        return JSONResponse(exc.args[0], 400)

    def on_http(request, exc):
        tgate(num(request))
        step(request, "handler")
        return JSONResponse(json.loads(exc.detail), exc.status_code, exc.headers)

    def ctxp(request):
        return {"c": request.headers["x-own"]}

    env = jinja2.Environment(loader=jinja2.DictLoader({"t": '{{ d|safe }}{# #}'}))
    tpl = Jinja2Templates(env=env, context_processors=[ctxp])

    async def jinja(request):
        d = report(request, await read(request))
        await gate(num(request))
        d["link"] = str(request.url_for("top", kind="k", id=d["id"]))
        return tpl.TemplateResponse(request, "t", {"d": json.dumps(d)})

    @requires("a")
    async def depth(request):
        d = report(request, await read(request))
        await gate(num(request))
        r2 = Request(request.scope, request.receive)
        assert r2.state.own == request.headers["x-own"]
        return JSONResponse(d)

    async def ws(sock):
        step(sock, "ws")
        await gate(num(sock))
        await sock.accept()
        parts = []
        while (m := await sock.receive_text()) != "end":
            step(sock, "msg")
            parts.append(m)
        got(sock, "".join(parts))
        await gate(num(sock))
        await sock.send_json(report(sock, "".join(parts)))
        await sock.close()

    eps = {"async": ep, "sync": sync, "class": Cls, "stream": stream, "syncstream": syncstream, "raise": raises, "http": http, "jinja": jinja, "depth": depth}
    plain = [WebSocketRoute("/ws/{id}", ws)] + [Route(f"/{k}/{{id}}", f, methods=None if k == "class" else ["POST"]) for k, f in eps.items()]

    mw = {
        "trusted": Middleware(TrustedHostMiddleware, allowed_hosts=["*.ex.org"]),
        "cors": Middleware(CORSMiddleware, allow_origin_regex="https?://.*", allow_credentials=True, expose_headers=["x-base"]),
        "gzip": Middleware(GZipMiddleware, minimum_size=100),
        "base": Middleware(Base),
        "base2": Middleware(Base),
        "pure": Middleware(Pure),
        "session": Middleware(SessionMiddleware, secret_key="k"),
        "auth": Middleware(AuthenticationMiddleware, backend=Backend()),
    }
    inner = Starlette(routes=plain, middleware=[mw[k] for k in scn["inner"]], exception_handlers={Mine: on_mine, HTTPException: on_http})
    routes = [
        Mount("/m/{a}", routes=plain),
        Mount("/n/{a}/{b:int}", app=Router(plain, middleware=[Middleware(Pure)])),
        Mount("/i/{a}", app=inner),
        Route("/top/{kind}/{id}", ep, name="top"),
        *plain,
        Host("{sub}.ex.org", app=Router([Mount("/h", routes=plain)])),
    ]
    return Starlette(routes=routes, middleware=[mw[k] for k in scn["layers"]], exception_handlers={Mine: on_mine, HTTPException: on_http})


def scope_of(q, n, lower=None):
    hs = [(b"host", q["host"].encode()), (b"x-own", q["id"].encode()), (b"x-session", q["does"].encode())] + [(b"x-many", v.encode()) for v in q["many"]]
    if q["origin"]:
        hs.append((b"origin", q["origin"].encode()))
    if q["user"]:
        hs.append((b"authorization", q["user"].encode()))
    hs.append((b"cookie", (f"c{q['id']}={q['id']}; " + ("session=" + q["signed"] if q["signed"] else "z=1")).encode()))
    if q["gzip"]:
        hs.append((b"accept-encoding", b"gzip"))
    mk = asgi.ws_scope if q["kind"] == "ws" else asgi.http_scope
    kw = {} if q["kind"] == "ws" else {"method": "POST"}
    s = mk(path=q["path"], query=q["query"].encode(), headers=hs, **kw)
    s["client"] = (q["id"], 1)
    s["n"] = n
    if q["given"]:
        s["state"] = {"other": 1}
    return s


async def serve(app, q, n, receive_gate):
    inbox = []
    if q["kind"] == "ws":
        inbox = [{"type": "websocket.connect"}] + [{"type": "websocket.receive", "text": c} for c in q["chunks"]] + [{"type": "websocket.receive", "text": "end"}, {"type": "websocket.disconnect", "code": 1000}]
    else:
        cs = q["chunks"] or [""]
        inbox = [{"type": "http.request", "body": c.encode(), "more_body": i + 1 < len(cs)} for i, c in enumerate(cs)]
    done = anyio.Event()

    async def receive():
        await receive_gate(n)
        if inbox:
            return inbox.pop(0)
        await done.wait()
        return {"type": "http.disconnect"}

    sent = []

    async def send(m):
        await receive_gate(n)
        sent.append(m)
        if m["type"] == "http.response.body" and not m.get("more_body"):
            done.set()

    exc = None
    try:
        await app(scope_of(q, n), receive, send)
    except Exception as e:  # noqa: BLE001
        exc = repr(e)
    return sent, exc


def answer_of(sent, exc):
    """(what the answer says, origin granted, session set, all of it)"""
    if exc is not None or not sent:
        return {}, "", "", "raised " + str(exc)
    hs = []
    granted, cookie, body, status = "", "", b"", 0
    enc = False
    for m in sent:
        if m["type"] == "http.response.start":
            status = m["status"]
            for k, v in m["headers"]:
                k, v = k.decode().lower(), v.decode()
                if k == "access-control-allow-origin":
                    granted = v
                if k == "content-encoding":
                    enc = True
                if k == "set-cookie" and v.startswith("session="):
                    first, _, rest = v.partition(";")
                    cookie = flat(unsigned(first[8:])) if first[8:] != "null" else "expired"
                    v = "session!" + cookie + ";" + rest
                hs.append((k, v))
        elif m["type"] == "http.response.body":
            body += m.get("body", b"")
        elif m["type"] == "websocket.send":
            body += (m.get("text") or "").encode()
        else:
            status = status or 101
            hs.append((m["type"], str(m.get("code"))))
    if enc:
        body = gz.decompress(body)
        hs = [h for h in hs if h[0] != "content-length"]
    try:
        saw = json.loads(body)
    except ValueError:
        saw = {}
    return saw, granted, cookie, hashlib.sha256(json.dumps([status, hs, body.decode("latin-1")]).encode()).hexdigest()[:16] + f" {status}"


FIELDS = ["id", "pp", "q", "h", "body", "sess", "user", "state"]


def execute(scn):
    reqs = scn["reqs"]
    n = len(reqs)
    ev = []
    gates = Gates(n)
    cfg = {"reqs": []}

    async def nogate(k):
        pass

    async def gated(k):
        await gates.a[k].wait()

    def answered(r, rnd, sent, exc):
        saw, granted, cookie, whole = answer_of(sent, exc)
        ev.append({"t": "answer", "r": r, "round": rnd, "saw": {f: saw.get(f, "?") for f in FIELDS}, "granted": granted, "cookie": cookie, "all": whole})

    async def main():
        loop = threading.get_ident()
        for r, q in enumerate(reqs, 1):
            app = build(scn, None, gates, {"round": 0, "gated": False, "loop": loop})
            _, _, _, whole = answer_of(*await serve(app, q, r, nogate))
            cfg["reqs"].append({"id": q["id"], "pp": q["pp"], "q": q["q"], "h": q["id"] + "/" + ",".join(q["many"]), "body": q["body"], "full": q["full"], "sess": q["sess"], "left": q["left"],
                                "user": q["user"], "host": q["host"], "origin": q["origin"] if q["kind"] != "ws" else "", "alone": whole})  # fmt: skip
        cur = {"round": 1, "gated": True, "loop": loop}
        app = build(scn, ev, gates, cur)
        todo = list(range(1, n + 1))
        plan = list(scn["sched"])
        over = set()

        async def one(r):
            sent, exc = await serve(app, reqs[r - 1], r, gated)
            answered(r, 1, sent, exc)
            over.add(r)

        k = 0
        async with anyio.create_task_group() as tg:
            while len(over) < n:
                await sched.settle_threads(gates)
                ready = sorted(set(gates.waiting()) | set(todo))
                if not ready:
                    break
                r = None
                while plan and r is None:
                    r = plan.pop(0)
                    r = r if r in ready else None
                if r is None:
                    k += 1
                    r = ready[(k * scn["stride"]) % len(ready)]
                if r in todo:
                    todo.remove(r)
                    tg.start_soon(one, r)
                else:
                    gates.release(r)
            if len(over) < n:
                ev.append({"t": "stuck"})
                tg.cancel_scope.cancel()
        cur.update(round=2, gated=False)
        for r in scn["again"]:
            answered(r, 2, *await serve(app, reqs[r - 1], r, nogate))

    sched.run(main, backend=scn["backend"])
    return {"cfg": cfg, "ev": ev}


def request(rng, i, scn):
    ident = rng.choice([f"r{i}", f"r{i}", f"id-{i}-{rng.randrange(100)}", str(i)])
    kind = rng.choice(KINDS)
    num = rng.randrange(50)
    host = rng.choice([f"s{i}.ex.org", f"t{rng.randrange(9)}.ex.org"])
    form = rng.choice(["", "m", "n", "i", "h"])
    pre, pp = {"": ("", {}), "m": (f"/m/a{i}", {"a": f"a{i}"}), "n": (f"/n/b{i}/{num}", {"a": f"b{i}", "b": num}), "i": (f"/i/c{i}", {"a": f"c{i}"}), "h": ("/h", {"sub": host.split(".")[0]})}[form]
    pp = {**pp, "id": ident}
    query = {f"k{i}": ident} if rng.random() < 0.6 else {"k": ident, "x": str(num)}
    sess = rng.choice([{}, {"own": ident}, {"own": ident, "n": num}])
    body = [ident + "x" * rng.choice([0, 3, 500])] + [f"<{ident}.{k}>" for k in range(rng.choice([0, 1, 2]))]
    does = rng.choice(["add", "add", "clear", "leave"])
    left = flat({**sess, "left": ident}) if does == "add" else flat(sess) if does == "leave" else "expired" if sess else ""
    return {"id": ident, "does": does, "kind": kind, "path": f"{pre}/{kind}/{quote(ident)}", "pp": flat(pp), "query": "&".join(f"{k}={v}" for k, v in query.items()), "q": flat(query), "many": rng.sample([f"m{i}", f"o{i}", "p"], rng.randint(0, 2)),
            "chunks": body, "body": "" if kind == "sync" else "".join(body), "full": "".join(body), "sess": flat(sess), "signed": signed(sess) if sess else "", "left": left if kind != "ws" else "",
            "user": rng.choice([ident, "u" + ident]), "host": host, "origin": f"https://o{i}.org" if rng.random() < 0.7 else "", "gzip": rng.random() < 0.5, "given": rng.random() < 0.3}  # fmt: skip


def rnd(rng, n=None, sch=None):
    must = ["pure", "session", "auth"]
    extra = [k for k in ["trusted", "cors", "gzip", "base", "base2"] if rng.random() < 0.6 or k == "cors"]
    layers = must + extra
    rng.shuffle(layers)
    scn = {"layers": layers, "inner": [k for k in ["pure", "gzip", "base"] if rng.random() < 0.2 and (k == "pure" or k not in layers)], "eager": rng.random() < 0.4, "stream": rng.random() < 0.5}
    n = n or rng.choice([2, 2, 3, 3, 4, 6])
    scn["reqs"] = [request(rng, i, scn) for i in range(1, n + 1)]
    if rng.random() < 0.4:
        # the same endpoint for all of them: whatever it shares is shared
        kind = rng.choice(KINDS)
        scn["reqs"] = [again(q, kind, rng, i, scn) for i, q in enumerate(scn["reqs"], 1)]
    scn["sched"] = sch or [rng.randint(1, n) for _ in range(rng.choice([0, 8, 40]))]
    scn["stride"] = rng.choice([0, 1, 1, 7])
    scn["again"] = rng.sample(range(1, n + 1), rng.randint(1, 2))
    scn["backend"] = rng.choice(["asyncio", "trio"])
    return scn


def again(q, kind, rng, i, scn):
    for _ in range(60):
        q = request(rng, i, scn)
        if q["kind"] == kind:
            return q
    return q


def pick(t, rng, ok):
    ks = [e for e in t["ev"] if ok(e)]
    return rng.choice(ks) if ks else None


def mut_step(t, rng):
    e = pick(t, rng, lambda e: e["t"] == "step")
    if e:
        k = rng.choice(["q", "h", "user", "host", "state", "ctx"])
        e["saw"] = {**e["saw"], k: "other"}
        return t


def mut_ep(t, rng):
    e = pick(t, rng, lambda e: e["t"] == "ep")
    if e:
        e[rng.choice(["pp", "sess"])] = "other"
        return t


def mut_read(t, rng):
    e = pick(t, rng, lambda e: e["t"] == "read" and e["body"])
    if e:
        e["body"] = e["body"][1:]
        return t


def mut_answer(t, rng):
    e = pick(t, rng, lambda e: e["t"] == "answer")
    if e:
        k = rng.choice(["granted", "cookie", "all", "saw"])
        if k == "saw":
            e["saw"] = {**e["saw"], rng.choice(FIELDS): "other"}
        else:
            e[k] = "other"
        return t


def run(c):
    c.model("MC_Isolation", "MC_Isolation_big.cfg" if c.thorough else None, min_states=15000)
    gens = c.behaviours("MC_Isolation", "MC_Isolation_gen.cfg")
    # (each step of the model spans a few gates of the program)
    scns = [rnd(c.rng, g["n"], [r for r in g["hist"] for _ in range(c.rng.choice([1, 2, 3, 4]))]) for g in gens if c.thorough or c.rng.random() < 0.5]
    scns += [rnd(c.rng) for _ in range(c.n(500, 8000))]
    runs = list(zip(scns, core.run_pool(execute, scns)))
    c.validate("Trace_Isolation", runs, mutators=[mut_step, mut_ep, mut_read, mut_answer])
