"""C37: server push from endpoints of every kind through stacks of middleware, several requests at a time."""

from __future__ import annotations

import gzip

import anyio
import anyio.from_thread

import asgi
import core
import sched


def middleware(kind):
    from starlette.middleware import Middleware
    from starlette.middleware.authentication import AuthenticationMiddleware
    from starlette.middleware.base import BaseHTTPMiddleware
    from starlette.middleware.cors import CORSMiddleware
    from starlette.middleware.gzip import GZipMiddleware
    from starlette.middleware.sessions import SessionMiddleware
    from starlette.middleware.trustedhost import TrustedHostMiddleware
    from starlette.responses import Response

    if kind == "gzip":
        return Middleware(GZipMiddleware, minimum_size=3)
    if kind == "session":
        return Middleware(SessionMiddleware, secret_key="x")
    if kind == "cors":
        return Middleware(CORSMiddleware, allow_origins=["*"])
    if kind == "host":
        return Middleware(TrustedHostMiddleware, allowed_hosts=["*"])
    if kind == "auth":

        class Nobody:
            async def authenticate(self, conn):
                return None

        return Middleware(AuthenticationMiddleware, backend=Nobody())

    async def dispatch(request, call_next):
        if kind == "poll":
            await request.is_disconnected()
        response = await call_next(request)
        if kind == "header":
            response.headers["x-h"] = "h"
        elif kind == "consume":
            body = b"".join([c async for c in response.body_iterator])
            return Response(body, response.status_code, headers=dict(response.headers))
        return response

    if kind == "sub":

        class Sub(BaseHTTPMiddleware):
            async def dispatch(self, request, call_next):
                return await call_next(request)

        return Middleware(Sub)
    return Middleware(BaseHTTPMiddleware, dispatch=dispatch)


def execute(scn):
    from starlette.applications import Starlette
    from starlette.endpoints import HTTPEndpoint
    from starlette.exceptions import HTTPException
    from starlette.middleware import Middleware
    from starlette.requests import Request
    from starlette.responses import PlainTextResponse, StreamingResponse
    from starlette.routing import Mount, Route

    ev = []

    async def pause(r, n=[0]):
        n[0] += 1
        for _ in range(scn["waits"][(n[0] + r) % len(scn["waits"])]):
            await anyio.sleep(0)

    class Spy:
        """sees what the endpoint itself responds"""

        def __init__(self, app):
            self.app = app

        async def __call__(self, scope, receive, send):
            r = scope["state"]["r"]

            async def spy(m):
                if m["type"] != "http.response.push":
                    ev.append({"t": "emit", "r": r, "ty": m["type"], "body": m.get("body", b"").decode(), "last": not m.get("more_body", False)})
                await send(m)

            await self.app(scope, receive, spy)

    async def push(request, path):
        r = request.state.r
        await pause(r)
        ev.append({"t": "push", "r": r, "path": path})
        exc = ""
        try:
            await request.send_push_promise(path)
        except Exception as x:
            exc = f"{type(x).__name__} {x}"
        ev.append({"t": "pushed", "r": r, "exc": exc})

    async def before(request):
        prog = scn["reqs"][request.state.r - 1]["prog"]
        for x in prog[: prog.index("start")]:
            await push(request, x)

    def respond(request):
        prog = scn["reqs"][request.state.r - 1]["prog"]
        rest = prog[prog.index("start") + 1 :]
        if rest == ["last"]:
            return PlainTextResponse("some text")

        async def stream():
            for i, x in enumerate(rest[:-1]):
                if x == "body":
                    await pause(request.state.r)
                    yield f"c{i};"
                else:
                    await push(request, x)

        return StreamingResponse(stream(), media_type="text/plain")

    async def func(request):
        await before(request)
        return respond(request)

    def plain(request):
        anyio.from_thread.run(before, request)
        return respond(request)

    class Class(HTTPEndpoint):
        async def get(self, request):
            return await func(request)

        def post(self, request):
            return plain(request)

    async def app(scope, receive, send):
        request = Request(scope, receive, send)
        await (await func(request))(scope, receive, send)

    class App:
        async def __call__(self, scope, receive, send):
            await app(scope, receive, send)

    async def fails(request):
        raise HTTPException(418)

    async def handler(request, exc):
        return await func(request)

    ep = {"func": func, "plain": plain, "class": Class, "classpost": Class, "app": App(), "fails": fails}[scn["ep"]]
    method = "POST" if scn["ep"] == "classpost" else "GET"
    routes = [Route("/x", ep, methods=None if ep is Class else [method], middleware=[*map(middleware, scn["inner"]), Middleware(Spy)])]
    if scn["mount"]:
        routes = [Mount("/m", routes=routes, middleware=[middleware(k) for k in scn["mid"]])]
    top = Starlette(routes=routes, middleware=[middleware(k) for k in scn["outer"]], exception_handlers={418: handler})

    async def one(r, q):
        headers = [tuple(h) for h in q["headers"]]
        scope = asgi.http_scope(method, "/m/x" if scn["mount"] else "/x", headers=headers, state={"r": r})
        if q["ext"] or q["others"] != 0:
            scope["extensions"] = {**({"http.response.push": {}} if q["ext"] else {}), **({"http.response.debug": {}} if q["others"] == 2 else {})}
        inbox = [{"type": "http.request", "body": b"", "more_body": False}]
        over = anyio.Event()
        sent = []

        async def receive():
            if inbox:
                return inbox.pop()
            await over.wait()
            return {"type": "http.disconnect"}

        async def send(m):
            await pause(r)
            ev.append({"t": "told", "r": r, "ty": m["type"], "path": m.get("path", ""), "last": m["type"] == "http.response.body" and not m.get("more_body", False),
                       "headers": [[a.decode("latin-1"), b.decode("latin-1")] for a, b in m.get("headers", [])] if m["type"] == "http.response.push" else []})  # fmt: skip
            sent.append(m)
            if ev[-1]["last"]:
                over.set()
            await pause(r)

        exc, body = "", b""
        try:
            await top(scope, receive, send)
            body = asgi.body_of(sent)
            if (asgi.header(asgi.start_of(sent), "content-encoding") or "") == "gzip":
                body = gzip.decompress(body)
        except Exception as x:
            exc = f"{type(x).__name__} {x}"
        ev.append({"t": "ret", "r": r, "exc": exc, "body": body.decode()})

    async def main():
        async with anyio.create_task_group() as tg:
            for r, q in enumerate(scn["reqs"], 1):
                tg.start_soon(one, r, q)

    sched.run(main, backend=scn["backend"], seed=scn["seed"])
    return {"cfg": {"reqs": [{"ext": q["ext"], "headers": [list(h) for h in q["headers"]]} for q in scn["reqs"]]}, "ev": ev}


HEADERS = [
    ("accept", ["*/*", "text/html, */*;q=0.8", "", "text/css"]), ("accept-encoding", ["gzip", "gzip, br", "identity", ""]), ("accept-language", ["de, en;q=0.5", "fr"]),
    ("cache-control", ["no-cache", "max-age=0"]), ("user-agent", ["UA/1.0", "\xfcA", "a" * 300]), ("cookie", ["a=b; c=d", "s=1"]), ("authorization", ["Basic eA=="]),
    ("host", ["h.example"]), ("accept-charset", ["utf-8"]), ("referer", ["/x"]), ("x-user-agent", ["no"]), ("origin", ["http://o"]), ("content-length", ["0"]), ("if-none-match", ['"x"']),
]  # fmt: skip
PATHS = ["/style.css", "/a b.js?x=1&y=\xe9", "", "/", "https://other.example/x", "/%20\u20ac", "/again", "/again"]
KINDS = ["base", "base", "sub", "header", "poll", "consume", "gzip", "gzip", "session", "cors", "host", "auth"]
LAYER = {"pass": ["session", "cors", "host", "auth"], "hold": ["gzip"], "relay": ["base", "sub", "header", "poll"], "queue": ["consume", "base"]}


def request(rng, prog, ext):
    hs = []
    for n, vs in HEADERS:
        for _ in range(rng.choice([0, 1, 1, 1, 2])):
            hs.append([n, rng.choice(vs)])
    rng.shuffle(hs)
    return {"headers": hs, "ext": ext, "others": rng.randrange(3), "prog": prog}


def paths(prog, rng):
    n = 0
    out = []
    for x in prog:
        if x == "push":
            n += 1
            x = rng.choice(PATHS) + (str(n) if rng.random() < 0.7 else "")
            x = x if x not in ("start", "body", "last") else "/"
        out.append(x)
    return out


def dress(reqs, outer, mid, inner, rng):
    return {"reqs": reqs, "outer": outer, "mid": mid, "inner": inner, "mount": bool(mid) or rng.random() < 0.2, "ep": rng.choice(["func", "func", "plain", "class", "class", "classpost", "app", "fails"]),
            "waits": [rng.choice([0, 0, 0, 1, 2, 5]) for _ in range(7)], "backend": rng.choice(["asyncio", "trio"]), "seed": rng.randrange(1000)}  # fmt: skip


def from_model(g, rng):
    ks = [rng.choice(LAYER[k]) for k in g["layers"]]
    a = rng.randrange(len(ks) + 1)
    b = rng.randrange(a, len(ks) + 1)
    return dress([request(rng, paths(g["prog"], rng), g["ext"])], ks[:a], ks[a:b], ks[b:], rng)


def rnd(rng):
    reqs = []
    for _ in range(rng.choice([1, 2, 3])):
        prog = ["push"] * rng.choice([0, 1, 2, 4]) + ["start"]
        if rng.random() < 0.6:
            prog += [rng.choice(["push", "body"]) for _ in range(rng.randrange(6))]
        reqs.append(request(rng, paths([*prog, "last"], rng), rng.random() < 0.8))
    n = lambda: [rng.choice(KINDS) for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))]  # noqa: E731
    return dress(reqs, n(), n(), n(), rng)


def pick(t, rng, ok):
    ks = [i for i, e in enumerate(t["ev"]) if ok(e)]
    return rng.choice(ks) if ks else None


def told(e):
    return e["t"] == "told" and e["ty"] == "http.response.push"


def mut_lose(t, rng):
    i = pick(t, rng, told)
    if i is not None:
        del t["ev"][i]
        return t


def mut_late(t, rng):
    i = pick(t, rng, lambda e: told(e))
    if i is not None:
        e = t["ev"].pop(i)
        k = next((k for k in range(i, len(t["ev"])) if t["ev"][k]["t"] == "told" and t["ev"][k]["r"] == e["r"] and t["ev"][k]["last"]))
        t["ev"].insert(k + 1, e)
        return t


def mut_header(t, rng):
    i = pick(t, rng, told)
    if i is not None:
        t["ev"][i]["headers"].append(["cookie", "a=b"])
        return t


def mut_drop_header(t, rng):
    i = pick(t, rng, lambda e: told(e) and e["headers"])
    if i is not None:
        t["ev"][i]["headers"].pop()
        return t


def mut_body(t, rng):
    i = pick(t, rng, lambda e: e["t"] == "ret" and e["body"])
    if i is not None:
        t["ev"][i]["body"] = t["ev"][i]["body"][1:]
        return t


def run(c):
    c.model("MC_Push", "MC_Push_big.cfg" if c.thorough else None, min_states=90000)
    gen = c.behaviours("MC_Push", "MC_Push_gen.cfg")
    scns = [from_model(g, c.rng) for g in gen for _ in range(c.n(1, 6))]
    scns += [rnd(c.rng) for _ in range(c.n(3000, 40000))]
    runs = list(zip(scns, core.run_pool(execute, scns)))
    c.validate("Trace_Push", runs, mutators=[mut_lose, mut_late, mut_header, mut_drop_header, mut_body])
