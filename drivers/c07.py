"""C07: the layers a request goes through."""

from __future__ import annotations

import functools
import warnings

import asgi
import core
import sched

STARTS = {"http.response.start", "websocket.accept", "lifespan.startup.complete", "websocket.close"}


def execute(scn):
    from starlette.applications import Starlette
    from starlette.endpoints import HTTPEndpoint, WebSocketEndpoint
    from starlette.exceptions import HTTPException
    from starlette.middleware import Middleware
    from starlette.middleware.base import BaseHTTPMiddleware
    from starlette.responses import PlainTextResponse
    from starlette.routing import Mount, Route, Router, WebSocketRoute
    from starlette.websockets import WebSocket

    ev = []
    on = [True]
    now = {"oc": {"k": "ok", "at": "", "st": 200}}

    class Boom(Exception):
        pass

    def log(t, id, st=0, own=True):
        if on[0]:
            ev.append({"t": t, "id": id, "st": st, "own": own})

    def argstr(a, k):
        return ",".join([*map(str, a), *(f"{x}={y}" for x, y in sorted(k.items()))])

    def oc_st():
        return now["oc"]["st"]  # an accepted websocket has no status of its own

    def at(id):
        return now["oc"]["k"] if now["oc"]["at"] == id else ""

    async def respond(scope, receive, send):
        await PlainTextResponse("own", now["oc"]["st"])(scope, receive, send)

    async def layer(id, app, scope, receive, send, own=True):
        started = False

        async def passing(m):
            nonlocal started
            if m["type"] in STARTS and not started:
                started = True
                log("start", id, m.get("status", oc_st() if m["type"] == "websocket.accept" else 0))
            await send(m)

        log("enter", id, 0, own)
        try:
            oc = at(id)
            if oc == "stop":
                await respond(scope, receive, passing)
            elif oc == "before":
                raise Boom(id)
            else:
                try:
                    await app(scope, receive, passing)
                except Exception:
                    if oc != "swallow":
                        raise
                    if not started:
                        await respond(scope, receive, passing)
                if oc == "after":
                    raise Boom(id)
        except Exception:
            log("raise", id)
            raise
        log("return", id)

    async def around(id, request, call_next, own):
        log("enter", id, 0, own)
        oc = at(id)
        if oc == "before":
            raise Boom(id)
        if oc == "stop":
            response = PlainTextResponse("own", now["oc"]["st"])
        else:
            response = await call_next(request)
        log("start", id, response.status_code)
        return response

    def factory(m):
        """-> (class or factory, args, kwargs) for a middleware of the scenario"""
        id, kind = m["id"], scn["kinds"].get(m["id"], "pure")
        n = scn["salt"] + len(id) + ord(id[-1])
        a = [(), (1,), ("p", 2)][n % 3] if m["arg"] else ()
        k = [{}, {"k": 1}, {"x": "y", "z": n}][n % 3 if a else 1 + n % 2] if m["arg"] else {}
        m["arg"] = argstr(a, k)
        if kind == "pure":
            class Pure:
                def __init__(self, app, *args, **kwargs):
                    self.app = app
                    if on[0]:
                        ev.append({"t": "make", "id": id, "arg": argstr(args, kwargs)})

                async def __call__(self, scope, receive, send):
                    await layer(id, self.app, scope, receive, send)

            return Pure, a, k
        if kind == "func":
            def func(app, *args, **kwargs):
                if on[0]:
                    ev.append({"t": "make", "id": id, "arg": argstr(args, kwargs)})

                async def inner(scope, receive, send):
                    await layer(id, app, scope, receive, send)

                return inner

            return func, a, k
        if kind == "base":
            class Base(BaseHTTPMiddleware):
                def __init__(self, app, *args, **kwargs):
                    super().__init__(app)
                    if on[0]:
                        ev.append({"t": "make", "id": id, "arg": argstr(args, kwargs)})

                async def dispatch(self, request, call_next):
                    return await around(id, request, call_next, True)

            return Base, a, k

        async def dispatch(request, call_next):
            return await around(id, request, call_next, False)

        if kind == "basedisp":
            m["arg"] = ""
            return BaseHTTPMiddleware, (), {"dispatch": dispatch}
        m["arg"] = ""
        return dispatch, (), {}

    def mws(ms):
        out = []
        for m in ms:
            cls, a, k = factory(m)
            out.append(Middleware(cls, *a, **k))
        return out

    def bogus():
        m = {"id": "bogus", "arg": ""}
        cls, a, k = factory(m)
        return Middleware(cls, *a, **k)

    def endpoint(n):
        async def fn(request):
            log("endpoint", n["id"])
            oc = now["oc"]
            if oc["at"]:
                return PlainTextResponse("fn", oc["st"])
            if oc["k"] == "http":
                raise HTTPException(oc["st"])
            if oc["k"] == "boom":
                raise Boom("endpoint")
            if oc["k"] == "late":
                async def late(scope, receive, send):
                    await send({"type": "http.response.start", "status": oc["st"], "headers": []})
                    raise HTTPException(418)

                return late
            return PlainTextResponse("fn", oc["st"])

        if n["ep"] == "ws":
            async def ws(websocket):
                log("endpoint", n["id"])
                await websocket.accept()
                await websocket.close()

            class WsClass(WebSocketEndpoint):
                async def dispatch(self):
                    await ws(WebSocket(self.scope, self.receive, self.send))

            class WsApp:
                async def __call__(self, scope, receive, send):
                    await ws(WebSocket(scope, receive, send))

            return [ws, WsClass, WsApp(), functools.partial(ws)][(scn["salt"] // 7 + len(n["id"])) % 4]

        class HttpClass(HTTPEndpoint):
            async def get(self, request):
                return await fn(request)

        if n["ep"] == "func":
            return [fn, functools.partial(fn), functools.partial(functools.partial(fn)), fn][scn["salt"] % 11 % 4]
        if scn["salt"] % 3 == 0:
            return HttpClass

        class App:
            async def __call__(self, scope, receive, send):
                response = await fn(None)
                await response(scope, receive, send)

        return App()

    apps = {}

    def build(n):
        lst = mws(n["mids"])
        given = lst if lst or scn["salt"] % 2 else None
        if n["k"] == "app":
            kids = [build(x) for x in n["kids"]]
            if scn["decoy"] and lst:
                on[0] = False
                decoy = Starlette(routes=[], middleware=list(lst))
                sched.drive(asgi.call(decoy, {"type": "lifespan"}, [{"type": "lifespan.startup"}, {"type": "lifespan.shutdown"}]))
                on[0] = True
            app = Starlette(routes=kids, middleware=given)
            lst.append(bogus())
            apps[n["id"]] = app
            return app
        if n["k"] == "router":
            return Router([build(x) for x in n["kids"]], middleware=given)
        if n["k"] == "mount":
            kid = n["kids"][0]
            if kid["k"] == "router" and not kid["mids"] and scn["salt"] % 3:
                r = Mount("/" + n["name"], routes=[build(x) for x in kid["kids"]], middleware=given)
            else:
                r = Mount("/" + n["name"], app=build(kid), middleware=given)
        else:
            R = WebSocketRoute if n["ep"] == "ws" else Route
            if given is not None and scn["salt"] % 5 == 0:
                given = tuple(given)
            r = R("/" + n["name"], endpoint(n), middleware=given)
        if isinstance(given, list):
            given.append(bogus())
        return r

    tree = scn["tree"]
    cfg_ev = []

    async def main():
        root = build(tree)
        for o in scn["ops"]:
            if o["t"] == "add":
                m = dict(o["mid"])
                cls, a, k = factory(m)
                exc = ""
                try:
                    if scn["kinds"].get(m["id"]) == "deco":
                        with warnings.catch_warnings():
                            warnings.simplefilter("ignore")
                            apps[o["app"]].middleware("http")(cls)
                    else:
                        apps[o["app"]].add_middleware(cls, *a, **k)
                except Exception as x:
                    exc = type(x).__name__
                ev.append({"t": "add", "app": o["app"], "mid": m, "exc": exc})
                continue
            now["oc"] = o["oc"]
            ev.append(o)
            path = "".join("/" + p for p in o["path"])
            if o["typ"] == "lifespan":
                scope, msgs = {"type": "lifespan", "asgi": {"version": "3.0"}}, [{"type": "lifespan.startup"}, {"type": "lifespan.shutdown"}]
            elif o["typ"] == "websocket":
                scope, msgs = asgi.ws_scope(path), None
            else:
                scope, msgs = asgi.http_scope("GET", path), None
            sent, exc = await asgi.call(root, scope, msgs)
            ev.append({"t": "done", "exc": "" if exc is None else type(exc).__name__})

    sched.run(main, backend=scn["backend"])
    return {"cfg": {"tree": tree}, "ev": ev}


def all_mids(n):
    return list(n["mids"]) + [m for k in n["kids"] for m in all_mids(k)]


def finish(tree, ops, rng, allbase=0.3):
    mids = all_mids(tree) + [o["mid"] for o in ops if o["t"] == "add"]
    kinds = {}
    some = rng.random() < allbase
    hit = {o["oc"]["at"] for o in ops if o["t"] == "request" and o["oc"]["k"] in ("after", "swallow")}
    added = {o["mid"]["id"] for o in ops if o["t"] == "add"}
    for m in mids:
        kinds[m["id"]] = rng.choice(["pure", "func"]) if not some or m["id"] in hit or rng.random() < 0.4 else rng.choice(["base", "basedisp"] + (["deco"] if m["id"] in added else []))
        m["base"] = kinds[m["id"]] in ("base", "basedisp", "deco")
        m["arg"] = "?" if rng.random() < 0.6 and kinds[m["id"]] not in ("deco", "basedisp") else ""
    for o in ops:
        if o["t"] == "request" and o["typ"] != "lifespan":
            o["oc"] = dict(o["oc"], st={"http": 418, "stop": 202, "swallow": 203}.get(o["oc"]["k"], rng.choice([200, 201])))
    return {"tree": tree, "ops": ops, "kinds": kinds, "salt": rng.randrange(60), "decoy": rng.random() < 0.2, "backend": "asyncio" if rng.random() < 0.8 else "trio"}


def from_model(b, rng):
    ops = [dict(o) for o in b["ops"]]
    for o in ops:
        o.pop("exc", None)
    if len(ops) == 1 or rng.random() < 0.3:
        ops.append(dict(ops[-1]) if ops[-1]["t"] == "request" else {"t": "request", "typ": "http", "path": ["z"], "oc": {"k": "ok", "at": "", "st": 200}})
    return finish(b["tree"], ops, rng)


def rnd(rng):
    count = [0]

    def mids(p=0.5, n=3):
        out = []
        for _ in range(rng.randrange(1, n + 1) if rng.random() < p else 0):
            count[0] += 1
            out.append({"id": f"w{count[0]}", "arg": "", "base": False})
        return out

    def node(k, name="", kids=(), ep=""):
        count[0] += 1
        return {"k": k, "name": name, "id": f"{k[0]}{count[0]}", "mids": mids(0.7 if k == "app" else 0.45), "kids": list(kids), "ep": ep}

    def kids(depth):
        out = []
        for name in rng.sample("abcdef", rng.randrange(1, 4)):
            if depth and rng.random() < 0.5:
                inner = node(rng.choice(["router", "router", "app"]), kids=kids(depth - 1))
                out.append(node("mount", name, [inner]))
            else:
                out.append(node("route", name, ep=rng.choice(["func", "func", "class", "ws"])))
        return out

    tree = node("app", kids=kids(rng.randrange(4)))

    def leaves(n, pre=()):
        pre = pre + ((n["name"],) if n["k"] in ("mount", "route") else ())
        if n["k"] == "route":
            return [(list(pre), n)]
        return [x for k in n["kids"] for x in leaves(k, pre)]

    def apps(n):
        return ([n["id"]] if n["k"] == "app" else []) + [x for k in n["kids"] for x in apps(k)]

    ls = leaves(tree)
    ops = []
    ids = [m["id"] for m in all_mids(tree)]
    for _ in range(rng.randrange(1, 9)):
        n = rng.random()
        if n < 0.3:
            app = tree["id"] if rng.random() < 0.5 else rng.choice(apps(tree))
            count[0] += 1
            ops.append({"t": "add", "app": app, "mid": {"id": f"w{count[0]}", "arg": "", "base": False}})
            ids.append(f"w{count[0]}")
        elif n < 0.36:
            ops.append({"t": "request", "typ": "lifespan", "path": [], "oc": {"k": "ok", "at": "", "st": 200}})
        else:
            path, leaf = rng.choice(ls)
            oc = {"k": "ok", "at": "", "st": 200}
            if rng.random() < 0.12:
                path = path[:-1] + ["nope"]
            if leaf["ep"] == "ws":
                if path[-1] == "nope":
                    continue
                ops.append({"t": "request", "typ": "websocket", "path": path, "oc": oc})
                continue
            m = rng.random()
            if m < 0.5:
                oc["k"] = rng.choice(["ok", "http", "boom", "late"])
            elif m < 0.85 and ids:
                oc["k"] = rng.choice(["stop", "before", "after", "swallow"])
                oc["at"] = rng.choice(ids)
            ops.append({"t": "request", "typ": "http", "path": path, "oc": oc})
    return finish(tree, ops, rng, 0.4)


def mut_swap(t, rng):
    for i in range(len(t["ev"]) - 1):
        a, b = t["ev"][i], t["ev"][i + 1]
        if a["t"] == b["t"] == "enter":
            t["ev"][i], t["ev"][i + 1] = b, a
            return t


def mut_skip(t, rng):
    for i, e in enumerate(t["ev"]):
        if e["t"] == "enter":
            del t["ev"][i]
            return t


def mut_twice(t, rng):
    for i, e in enumerate(t["ev"]):
        if e["t"] == "endpoint":
            t["ev"].insert(i, dict(e))
            return t


def mut_remade(t, rng):
    for i, e in enumerate(t["ev"]):
        if e["t"] == "make":
            t["ev"].append(dict(e))
            return t


def mut_args(t, rng):
    for i, e in enumerate(t["ev"]):
        if e["t"] == "make" and e["arg"]:
            e["arg"] = ""
            return t


def mut_late_add(t, rng):
    for i, e in enumerate(t["ev"]):
        if e["t"] == "add" and e["exc"]:
            e["exc"] = ""
            return t


def mut_start(t, rng):
    for i, e in enumerate(t["ev"]):
        if e["t"] == "start":
            e["st"] = 299
            return t


def run(c):
    gen = c.behaviours("MC_Onion")
    c.rng.shuffle(gen)
    scns = [from_model(b, c.rng) for b in gen[: c.n(3500, 40000)]] + [rnd(c.rng) for _ in range(c.n(3500, 60000))]
    runs = list(zip(scns, core.run_pool(execute, scns)))
    c.validate("Trace_Onion", runs, mutators=[mut_swap, mut_skip, mut_twice, mut_remade, mut_args, mut_late_add, mut_start])
