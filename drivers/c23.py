"""C23: connections through AuthenticationMiddleware to endpoints of every kind behind stacks of requires()."""

from __future__ import annotations

import functools
from urllib.parse import parse_qsl, urlsplit

import asgi
import core
import sched
from drivers import hosts

HTTP = ["async", "sync", "cls", "clssync", "kwargs", "second", "subreq", "partial"]
WS = ["ws", "wscls", "wskw"]


class Boom(Exception):
    pass


def execute(scn):
    from starlette.applications import Starlette
    from starlette.authentication import (
        AuthCredentials, AuthenticationBackend, AuthenticationError, SimpleUser, requires,
    )  # fmt: skip
    from starlette.endpoints import HTTPEndpoint, WebSocketEndpoint
    from starlette.middleware import Middleware
    from starlette.middleware.authentication import AuthenticationMiddleware
    from starlette.requests import Request
    from starlette.responses import PlainTextResponse, Response
    from starlette.routing import Mount, Route, WebSocketRoute
    from starlette.websockets import WebSocket

    ev = []
    cfg = scn["cfg"]
    cur = {}
    st = scn["style"]

    class Backend(AuthenticationBackend):
        async def authenticate(self, conn):
            cur["calls"] += 1
            c = cur["conn"]
            if c["says"] == "none":
                return None
            if c["says"] == "error":
                raise (AuthenticationError if st % 2 else type("Sub", (AuthenticationError,), {}))("no")
            if c["says"] == "boom":
                raise Boom
            return AuthCredentials(tuple(c["scopes"]) if st % 3 else granted.setdefault(tuple(c["scopes"]), list(c["scopes"]))), SimpleUser(c["user"])

    class Outer(AuthenticationBackend):
        """of an authentication around the one in question, which knows everybody and allows everything"""

        async def authenticate(self, conn):
            return AuthCredentials(SCOPES), SimpleUser("outer")

    granted = {}

    def guard(f):
        for g in reversed(cfg["guards"]):
            kw = {}
            if g["status"] != 403 or st % 2:
                kw["status_code"] = g["status"]
            if g["redirect"]:
                kw["redirect"] = "login" if g["redirect"] == "/login" else "in:login"
            need = g["need"][0] if len(g["need"]) == 1 and st % 2 else (tuple(g["need"]) if st % 3 else list(g["need"]))
            f = requires(need, **kw)(f)
            if isinstance(need, list):
                need.clear()  # (the application's own list, whatever becomes of it)
        return f

    def seen(conn):
        cur.update(ran=cur["ran"] + 1, auth=list(conn.auth.scopes), who=conn.user.display_name, authenticated=conn.user.is_authenticated)
        if st % 2:
            conn.auth.scopes.extend(SCOPES)  # (of this connection alone)

    @guard
    async def a_endpoint(request):
        seen(request)
        return Response(status_code=299)

    @guard
    def s_endpoint(request):
        seen(request)
        return Response(status_code=299)

    class Cls(HTTPEndpoint):
        @guard
        async def get(self, request):
            assert isinstance(self, Cls)
            seen(request)
            return Response(status_code=299)

        @guard
        def post(self, request: Request) -> Response:
            seen(request)
            return Response(status_code=299)

    @guard
    async def second(x, request, y=3):
        assert (x, y) == (1, 3)
        seen(request)
        return Response(status_code=299)

    @guard
    def kwargs(*, flag, request):
        assert flag == 1
        seen(request)
        return Response(status_code=299)

    async def raw_kw(scope, receive, send):
        await kwargs(flag=1, request=Request(scope, receive))(scope, receive, send)

    async def raw_second(scope, receive, send):
        await (await second(1, Request(scope, receive)))(scope, receive, send)

    @guard
    async def ws_endpoint(websocket):
        seen(websocket)
        await websocket.accept()
        await websocket.close()

    @guard
    async def ws_kw(tag, websocket):
        assert tag == 2
        seen(websocket)
        await websocket.accept()
        await websocket.close()

    async def raw_ws(scope, receive, send):
        await ws_kw(2, websocket=WebSocket(scope, receive, send))

    class Ws(WebSocketEndpoint):
        @guard
        async def on_connect(self, websocket):
            seen(websocket)
            await websocket.accept()

    class Sub(Request):
        pass

    async def raw_sub(scope, receive, send):
        await (await a_endpoint(Sub(scope, receive)))(scope, receive, send)

    async def main():
        kw = {}
        if cfg["onerror"] != 400:
            kw["on_error"] = lambda conn, exc: PlainTextResponse(f"{type(conn).__name__} {exc}", status_code=cfg["onerror"])
        mw = [Middleware(AuthenticationMiddleware, backend=Backend(), **kw)]
        sync_raw = lambda scope, receive, send: None  # noqa: E731
        routes = [
            Route("/async/{p:path}", a_endpoint), Route("/sync/{p:path}", s_endpoint), Route("/cls/{p:path}", Cls),
            Route("/partial/{p:path}", functools.partial(a_endpoint)),
            Mount("/kwargs", app=raw_kw), Mount("/second", app=raw_second), Mount("/subreq", app=raw_sub),
            WebSocketRoute("/ws/{p:path}", ws_endpoint), WebSocketRoute("/wscls/{p:path}", Ws), Mount("/wskw", app=raw_ws),
        ]  # fmt: skip
        login = [Route("/login", a_endpoint, name="login"), Mount("/in", routes=[Route("/login", a_endpoint, name="login")], name="in")]
        del sync_raw
        if st % 4 == 0:
            app = Starlette(routes=[*login, Mount("", routes=routes, middleware=mw)])
        elif st % 4 == 1:
            app = Starlette(routes=routes + login)
            app = AuthenticationMiddleware(app, Backend(), **kw)
        else:
            app = Starlette(routes=routes + login, middleware=mw)
        if scn["outer"]:
            app = AuthenticationMiddleware(app, backend=Outer())
        for n in scn["conns"]:
            cur.update(conn=n, calls=0, ran=0, auth=[], who="", authenticated=False)
            typ = n["type"]
            kind = n["kind"]
            path = f"/{'cls' if kind == 'clssync' else kind}{n['path']}"
            if typ == "lifespan":
                scope = {"type": "lifespan", "asgi": {"version": "3.0"}, "state": {}}
                sent, exc = await asgi.call(app, scope, [{"type": "lifespan.startup"}, {"type": "lifespan.shutdown"}])
                ok = [m["type"] for m in sent] == ["lifespan.startup.complete", "lifespan.shutdown.complete"]
                ev.append({"t": "conn", "type": typ, "says": n["says"], "scopes": n["scopes"], "user": n["user"], "url": "", "calls": cur["calls"], "ran": cur["ran"], "auth": [], "who": "",
                           "authenticated": False, "status": 0, "closed": False, "to": "", "next": "", "exc": exc is not None or not ok})  # fmt: skip
                continue
            mk = asgi.http_scope if typ == "http" else asgi.ws_scope
            kws = {"scheme": n["scheme"]} if typ == "http" else {}
            scope = mk(path=n["root"] + path, query=n["query"], headers=[("host", "h.example:81")], root_path=n["root"], **kws)
            if typ == "http":
                scope["method"] = "POST" if kind == "clssync" else "GET"
            url = {"scheme": scope["scheme"], "netloc": "h.example:81", "path": n["root"] + path, "query": n["query"]}
            sent, exc = await asgi.call(app, scope)
            start = next((m for m in sent if m["type"].endswith("http.response.start")), {"status": 0, "headers": []})
            loc = asgi.header(start, "location")
            to = nxt = ""
            if loc is not None:
                u = urlsplit(loc)
                q = parse_qsl(u.query, keep_blank_values=True)
                to = u.path[len(n["root"]):] if (u.scheme, u.netloc) == (scope["scheme"], "h.example:81") and u.path.startswith(n["root"]) else "elsewhere " + loc
                nx = hosts.split(q[0][1]) if [k for k, v in q] == ["next"] else {}
                want = {**url, "query": hosts.unquote_to_bytes(url["query"]).decode("latin-1")}
                nxt = "U" if nx == want else "not it: " + loc
            types = [m["type"] for m in sent]
            ev.append({"t": "conn", "type": typ, "says": n["says"], "scopes": n["scopes"], "user": n["user"], "url": "U", "calls": cur["calls"], "ran": cur["ran"], "auth": cur["auth"], "who": cur["who"],
                       "authenticated": cur["authenticated"], "status": start["status"], "closed": bool(types) and types[0] == "websocket.close", "to": to, "next": nxt,
                       "exc": isinstance(exc, Boom) if exc is not None and n["says"] == "boom" else exc is not None})  # fmt: skip

    sched.run(main, backend=scn["backend"])
    return {"cfg": cfg, "ev": ev}


SCOPES = ["a", "b", "c", "auth", "authenticated", "a:read", "A", ""]


def conn(rng, typ, says, scopes):
    return {"type": typ, "says": says, "scopes": scopes, "user": rng.choice(["u", "tom", "é x"]), "kind": rng.choice(WS if typ == "websocket" else HTTP),
            "path": rng.choice(["/", "/x", "/a b", "/é", "/x?y", "/a%2Fb", "/x/y/"]), "query": rng.choice(["", "a=1", "a=1&b=2", "next=/x", "q=%20%26", "x=y#z"[:3]]), "root": rng.choice(["", "", "/rp"]),
            "scheme": rng.choice(["http", "https"])}  # fmt: skip


def dress(s, rng):
    return {**s, "outer": rng.random() < 0.2, "style": rng.randrange(24), "backend": rng.choice(["asyncio", "trio"])}


def from_model(g, rng):
    cfg = {"guards": [{**x, "redirect": rng.choice(["/login", "/in/login"]) if x["redirect"] else "", "status": rng.choice([403, 403, 404]) if x["status"] == 403 else 401} for x in g[0]["cfg"]["guards"]],
           "onerror": rng.choice([400, 400, 401, 302])}  # fmt: skip
    conns = [conn(rng, x["type"], x["says"], x["scopes"]) for x in g]
    rng.shuffle(conns)
    return dress({"cfg": cfg, "conns": conns}, rng)


def rnd(rng):
    guards = [{"need": rng.sample(SCOPES, rng.choice([0, 1, 1, 2, 3])), "status": rng.choice([403, 401, 404, 418, 500]), "redirect": rng.choice(["", "", "/login", "/in/login"])} for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))]
    need = [x for g in guards for x in g["need"]]
    conns = []
    for _ in range(rng.choice([1, 3, 6])):
        sc = list(dict.fromkeys(rng.sample(SCOPES, rng.randrange(4)) + (need if rng.random() < 0.5 else need[1:] if rng.random() < 0.5 else [])))
        rng.shuffle(sc)
        says = rng.choice(["creds"] * 6 + ["none", "error", "boom"])
        conns.append(conn(rng, rng.choice(["http"] * 5 + ["websocket"] * 3 + ["lifespan"]), says, sc if says == "creds" else []))
    return dress({"cfg": {"guards": guards, "onerror": rng.choice([400, 401, 503])}, "conns": conns}, rng)


def pick(t, rng, ok):
    ks = [e for e in t["ev"] if ok(e)]
    return rng.choice(ks) if ks else None


def mut_ran(t, rng):
    e = pick(t, rng, lambda e: e["type"] != "lifespan")
    if e:
        e["ran"] = 1 - e["ran"]
        return t


def mut_calls(t, rng):
    e = rng.choice(t["ev"])
    e["calls"] += 1
    return t


def mut_auth(t, rng):
    e = pick(t, rng, lambda e: e["ran"])
    if e:
        e["auth"] = e["auth"] + ["zz"]
        return t


def mut_status(t, rng):
    e = pick(t, rng, lambda e: e["status"])
    if e:
        e["status"] += 100
        return t


def mut_next(t, rng):
    e = pick(t, rng, lambda e: e["next"])
    if e:
        e["next"] = "/"
        return t


def mut_open(t, rng):
    e = pick(t, rng, lambda e: e["closed"])
    if e:
        e["closed"] = False
        return t


def run(c):
    c.model("MC_Auth", "MC_Auth_big.cfg" if c.thorough else None, min_states=15000)
    groups = {}
    for g in c.behaviours("MC_Auth", "MC_Auth_gen.cfg"):
        groups.setdefault(str(g["cfg"]), []).append(g)
    scns = [from_model(g, c.rng) for g in groups.values() for _ in range(c.n(1, 10))]
    scns += [rnd(c.rng) for _ in range(c.n(2500, 40000))]
    runs = list(zip(scns, core.run_pool(execute, scns)))
    c.validate("Trace_Auth", runs, mutators=[mut_ran, mut_calls, mut_auth, mut_status, mut_next, mut_open])
