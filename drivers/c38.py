"""C38: views of connections made all over an application, and what they show of their scope and state."""

from __future__ import annotations

import base64
import json
import threading

import anyio
import anyio.from_thread
import itsdangerous

import asgi
import core
import sched

MANAGED = ["user", "auth", "x1", "x2", "client", "path_params"]


class World:
    """performs operations on real scopes and views, and records them"""

    def __init__(self, flat=False):
        self.flat = flat
        self.ev = []
        self.scopes = []
        self.views = []
        self.app = None
        self.lock = threading.RLock()

    def scope(self, scope, has, init):
        self.scopes.append(scope)
        self.ev.append({"t": "start", "has": has, "init": init})
        return len(self.scopes)

    def fork(self, of):
        with self.lock:
            self.scopes.append(dict(self.scopes[of - 1]))
            self.ev.append({"t": "fork", "of": of})
            return len(self.scopes)

    def view(self, sc, conn):
        with self.lock:
            for v, other in enumerate(self.views, 1):
                if other is conn:  # handlers may be given the endpoint's own
                    return v
            self.views.append(conn)
            self.ev.append({"t": "view", "sc": sc})
            return len(self.views)

    def make(self, sc, style):
        from starlette.requests import HTTPConnection, Request
        from starlette.websockets import WebSocket

        scope = self.scopes[sc - 1]
        if style % 3 == 0:
            conn = HTTPConnection(scope)
        elif scope["type"] == "http":
            conn = Request(scope)
        else:
            conn = WebSocket(scope, None, None)
        return self.view(sc, conn)

    def attempt(self, f):
        try:
            return f()
        except (AttributeError, KeyError, AssertionError):
            return "error"
        except Exception as e:
            return type(e).__name__

    def read(self, o, k, how, style):
        if how == "has":
            return str(hasattr(o, k))
        if how == "default":
            r = getattr(o, k, None)
            return "None" if r is None else r
        return self.attempt(lambda: getattr(o, k))

    def readd(self, d, k, how):
        if how == "has":
            return str(k in d)
        if how == "default":
            return d.get(k, "None")
        return self.attempt(lambda: d[k])

    def show(self, k, r):
        if r is None:
            return "None"
        if k == "path_params":
            return r["p"] if r else "{}"
        if k == "client":
            return r[0] if isinstance(r, tuple) else repr(r)
        return r

    def do(self, op):
        with self.lock:
            self.do1(dict(op))

    def do1(self, e):
        t = e["t"]
        style = e.pop("style", 0)
        conn = self.views[e["v"] - 1] if "v" in e else None
        scope = self.scopes[e["sc"] - 1] if "sc" in e else None
        k = e.get("k")
        if t == "set":
            try:
                setattr(conn.state, k, e["val"])
            except Exception as x:
                e = {"t": "failed", "why": repr(x)}
        elif t == "get":
            e["got"] = self.attempt(lambda: self.read(conn.state, k, e["how"], style))
        elif t == "del":
            e["got"] = self.attempt(lambda: delattr(conn.state, k) or "ok")
        elif t == "rawset":
            if "state" in scope:
                scope["state"][k] = e["val"]
            else:
                return
        elif t == "rawget":
            e["got"] = self.readd(scope["state"], k, e["how"]) if "state" in scope else "error"
        elif t in ("aset", "aget", "adel"):
            st = conn.app.state if conn is not None and style % 2 else self.app.state
            e.pop("v", None)
            if t == "aset":
                setattr(st, k, e["val"])
            elif t == "aget":
                e["got"] = self.read(st, k, e["how"], style)
            else:
                e["got"] = self.attempt(lambda: delattr(st, k) or "ok")
        elif t == "put":
            v = e["val"]
            scope[k] = {"p": v} if k == "path_params" else (v, 80) if k == "client" else v
        elif t == "sput":
            scope["session"] = dict(e["init"])
        elif t == "sset":
            def f():
                conn.session[k] = e["val"]
                return "ok"

            e["got"] = self.attempt(f)
        elif t == "sget":
            e["got"] = self.attempt(lambda: self.readd(conn.session, k, e["how"]))
        elif t == "sdel":
            def f():
                del conn.session[k]
                return "ok"

            e["got"] = self.attempt(f)
        elif t == "look":
            how = e["how"]
            if how == "has":
                e["got"] = str(k in conn)
            elif how == "default":
                e["got"] = self.show(k, conn.get(k))
            elif how == "item":
                e["got"] = self.attempt(lambda: self.show(k, conn[k]))
            else:
                e["got"] = self.attempt(lambda: self.show(k, getattr(conn, k)))
                if k == "client" and e["got"] not in ("None", "error") and (conn.client.host, conn.client.port) != (e["got"], 80):
                    e["got"] = repr(conn.client)
        elif t == "keys":
            ks = [list(conn), list(conn.keys()), [x for x, _ in conn.items()]][style % 3]
            e["got"] = [x for x in ks if x in MANAGED and (self.flat or x != "path_params")] if len(ks) == len(conn) == len(set(ks)) else ["?"]
        elif t == "same":
            a, b = conn, self.views[e["w"] - 1]
            e["got"] = [a == b, not a != b, a in {b: 1}][style % 3]
        self.ev.append(e)


def flat(scn):
    w = World(True)

    class App:
        pass

    from starlette.datastructures import State

    w.app = App()
    w.app.state = State(dict(scn["app"])) if scn["app"] else State()
    n = 0
    for op in scn["ops"]:
        n += 1
        if op["t"] == "start":
            scope = {"type": ["http", "http", "websocket"][(scn["seed"] + n) % 3], "method": "GET", "path": "/", "headers": [], "query_string": b"", "app": w.app}
            if op["has"]:
                scope["state"] = dict(op["init"])
            w.scope(scope, op["has"], op["init"])
        elif op["t"] == "fork":
            w.fork(op["of"])
        elif op["t"] == "view":
            w.make(op["sc"], scn["seed"] + n)
        else:
            w.do({"style": scn["seed"] + n, **op})
    return {"cfg": {"app": scn["app"]}, "ev": w.ev}


def execute(scn):
    if scn["kind"] == "flat":
        return flat(scn)
    from starlette.applications import Starlette
    from starlette.background import BackgroundTask
    from starlette.endpoints import HTTPEndpoint, WebSocketEndpoint
    from starlette.exceptions import HTTPException
    from starlette.middleware import Middleware
    from starlette.middleware.authentication import AuthenticationMiddleware
    from starlette.middleware.base import BaseHTTPMiddleware
    from starlette.middleware.sessions import SessionMiddleware
    from starlette.responses import PlainTextResponse
    from starlette.routing import Mount, Route, WebSocketRoute

    w = World()
    mine = {}

    async def pause(n=[0]):
        n[0] += 1
        for _ in range(scn["waits"][n[0] % len(scn["waits"])]):
            await anyio.sleep(0)

    def resolve(r, sc, v, op):
        """an operation of the program, on what there is now"""
        op = dict(op)
        vs = mine[r]
        if op["t"] == "view":
            mine[r].append(w.make(sc, op["style"]))
            return
        if op["t"] in ("rawset", "rawget", "put", "sput"):
            op["sc"] = sc
        elif op["t"] != "aset":
            op["v"] = v if op["at"] == 0 or not vs else vs[op["at"] % len(vs)]
            if op["t"] == "same":
                op["w"] = vs[op["to"] % len(vs)] if vs else v
        op.pop("at", None)
        op.pop("to", None)
        w.do(op)

    def ops_now(r, sc, v, ops):
        for op in ops:
            resolve(r, sc, v, op)

    async def ops(r, sc, v, prog):
        for op in prog:
            await pause()
            resolve(r, sc, v, op)

    def info(scope):
        return scope["verif"]["r"], scope["verif"]["sc"]

    def seen(conn):
        r, sc = info(conn.scope)
        v = w.view(sc, conn)
        mine[r].append(v)
        return r, sc, v

    def prog(r, name):
        return scn["reqs"][r - 1]["prog"].get(name, [])

    class Plain:
        def __init__(self, app, name, fork):
            self.app, self.name, self.fork = app, name, fork

        async def __call__(self, scope, receive, send):
            if scope["type"] not in ("http", "websocket"):
                return await self.app(scope, receive, send)
            r, sc = info(scope)
            if self.fork:
                sc = w.fork(sc)
                scope = w.scopes[sc - 1]
                scope["verif"] = {"r": r, "sc": sc}
            v = w.make(sc, len(self.name) + r)
            mine[r].append(v)
            await ops(r, sc, v, prog(r, self.name + "down"))
            try:
                await self.app(scope, receive, send)
            finally:
                await ops(r, sc, v, prog(r, self.name + "up"))

    class Announce:
        """says what a layer of the library has put in the scope"""

        def __init__(self, app, kind, name):
            self.app, self.kind, self.name = app, kind, name

        async def __call__(self, scope, receive, send):
            if scope["type"] in ("http", "websocket"):
                r, sc = info(scope)
                if self.kind == "session":
                    w.ev.append({"t": "sput", "sc": sc, "init": scn["reqs"][r - 1]["cookie"]})
                else:
                    w.ev += [{"t": "put", "sc": sc, "k": k, "val": k + self.name + str(r)} for k in ("auth", "user")]
            await self.app(scope, receive, send)

    class Backend:
        def __init__(self, name):
            self.name = name

        async def authenticate(self, conn):
            r, sc, v = seen(conn)
            await ops(r, sc, v, prog(r, self.name + "down"))
            return "auth" + self.name + str(r), "user" + self.name + str(r)

    def layers(names, kinds):
        return [m for n, k in zip(names, kinds) for m in layer(n, k)]

    def layer(name, kind):
        if kind in ("plain", "fork"):
            return [Middleware(Plain, name, kind == "fork")]
        if kind == "session":
            return [Middleware(SessionMiddleware, secret_key="k"), Middleware(Announce, kind, name)]
        if kind == "auth":
            return [Middleware(AuthenticationMiddleware, backend=Backend(name)), Middleware(Announce, kind, name)]

        async def dispatch(request, call_next):
            r, sc, v = seen(request)
            await ops(r, sc, v, prog(r, name + "down"))
            response = await call_next(request)
            await ops(r, sc, v, prog(r, name + "up"))
            return response

        return [Middleware(BaseHTTPMiddleware, dispatch=dispatch)]

    def background(r, sc, v, sync):
        if sync:
            return BackgroundTask(ops_now, r, sc, v, prog(r, "bg"))
        return BackgroundTask(ops, r, sc, v, prog(r, "bg"))

    class Boom(Exception):
        pass

    def finish(request, r, sc, v, sync):
        if scn["fails"] == "http":
            raise HTTPException(418)
        if scn["fails"] == "boom":
            raise Boom
        return PlainTextResponse("x", background=background(r, sc, v, sync))

    async def func(request):
        r, sc, v = seen(request)
        await ops(r, sc, v, prog(r, "ep"))
        return finish(request, r, sc, v, False)

    def plain(request):
        r, sc, v = seen(request)
        ops_now(r, sc, v, prog(r, "ep"))
        return finish(request, r, sc, v, True)

    class Class(HTTPEndpoint):
        async def get(self, request):
            return await func(request)

    async def ws(websocket):
        r, sc, v = seen(websocket)
        await websocket.accept()
        await ops(r, sc, v, prog(r, "ep"))
        await websocket.close()
        await ops(r, sc, v, prog(r, "bg"))

    class WsClass(WebSocketEndpoint):
        async def on_connect(self, websocket):
            r, sc, v = self.at = seen(websocket)
            await ops(r, sc, v, prog(r, "ep"))
            await websocket.accept()
            await websocket.close()

        async def on_disconnect(self, websocket, close_code):
            r, sc, v = self.at
            await ops(r, sc, v, prog(r, "bg"))

    async def handler(request, exc):
        r, sc, v = seen(request)
        await ops(r, sc, v, prog(r, "handler"))
        return PlainTextResponse("h", background=background(r, sc, v, False))

    def sync_handler(request, exc):
        r, sc, v = seen(request)
        ops_now(r, sc, v, prog(r, "handler"))
        return PlainTextResponse("h", background=background(r, sc, v, True))

    names = [[f"{g}{i}" for i in range(len(scn[g]))] for g in ("outer", "mid", "inner")]
    outer, mid, inner = (layers(ns, scn[g]) for ns, g in zip(names, ("outer", "mid", "inner")))
    ep = {"func": func, "plain": plain, "class": Class}[scn["ep"]]
    routes = [Route("/x", ep, middleware=inner), WebSocketRoute("/x", WsClass if scn["wsclass"] else ws, middleware=inner)]
    if scn["mount"]:
        routes = [Mount("/m", routes=routes, middleware=mid)]
    h = sync_handler if scn["syncfail"] else handler
    top = w.app = Starlette(routes=routes, middleware=outer, exception_handlers={418: h, Boom: h} if scn["fails"] != "boom500" else {})
    for k, v in scn["app"]:
        setattr(top.state, k, v)

    async def one(r, q):
        path = "/m/x" if scn["mount"] else "/x"
        headers = []
        if q["cookie"]:
            data = base64.b64encode(json.dumps(dict(q["cookie"])).encode())
            headers.append((b"cookie", b"session=" + itsdangerous.TimestampSigner("k").sign(data)))
        scope = asgi.http_scope("GET", path, headers=headers) if q["typ"] == "http" else asgi.ws_scope(path, headers=headers)
        scope.pop("state", None)
        scope.pop("client", None)
        if q["has"]:
            scope["state"] = dict(q["init"])
        sc = w.scope(scope, q["has"], q["init"])
        scope["verif"] = {"r": r, "sc": sc}
        mine[r] = []
        inbox = [{"type": "http.request", "body": b"", "more_body": False}] if q["typ"] == "http" else [{"type": "websocket.connect"}, {"type": "websocket.disconnect", "code": 1000}]
        over = anyio.Event()

        async def receive():
            await pause()
            if inbox:
                return inbox.pop(0)
            await over.wait()
            return {"type": "http.disconnect"}

        async def send(m):
            await pause()
            if m["type"] == "http.response.body" and not m.get("more_body", False):
                over.set()

        try:
            await top(scope, receive, send)
        except Exception as x:
            w.ev.append({"t": "failed", "why": repr(x)})

    async def main():
        async with anyio.create_task_group() as tg:
            for r, q in enumerate(scn["reqs"], 1):
                tg.start_soon(one, r, q)

    sched.run(main, backend=scn["backend"], seed=scn["seed"])
    return {"cfg": {"app": scn["app"]}, "ev": w.ev}


KEYS = ["a", "b", "items", "_x", "self", "client", "a b", "\xe9", "get", "state"]


def anyop(rng, vals, app=True):
    vals[0] += 1
    k, val = rng.choice(KEYS[: rng.choice([1, 2, 10])]), f"v{vals[0]}"
    how = rng.choice(["attr", "default", "has"])
    x = rng.random()
    if x < 0.5:
        e = {"t": rng.choice(["set", "set", "get", "get", "get", "del"]), "k": k}
    elif x < 0.6:
        e = {"t": rng.choice(["rawset", "rawget"]), "k": k}
    elif x < 0.7:
        e = {"t": rng.choice(["aset", "aget", "aget", "adel"]), "k": k}
    elif x < 0.8:
        e = {"t": rng.choice(["sset", "sget", "sget", "sdel", "sput"]), "k": k}
    elif x < 0.95:
        k = rng.choice(["user", "auth", "x1", "x2", "client"])
        e = {"t": rng.choice(["put", "look", "look", "look", "keys"]), "k": k}
        how = rng.choice(["prop", "item", "default", "has"]) if not k.startswith("x") else rng.choice(["item", "default", "has"])
    else:
        e = {"t": rng.choice(["view", "same"])}
    t = e["t"]
    if t in ("set", "rawset", "aset", "put", "sset"):
        e["val"] = val
    if t in ("get", "rawget", "aget", "sget", "look"):
        e["how"] = how
    if t == "sput":
        e = {"t": t, "init": [["a", val]] if rng.random() < 0.5 else []}
    if t == "keys":
        e.pop("k")
    return {**e, "at": rng.choice([0, 0, 0, 1, 2, 3, 5]), "to": rng.randrange(6), "style": rng.randrange(6)}


def appscn(rng):
    vals = [0]
    g = {n: [rng.choice(["plain", "plain", "base", "base", "fork", "session", "auth"]) for _ in range(rng.choice([0, 1, 1, 2]))] for n in ("outer", "mid", "inner")}
    names = [f"{n}{i}{d}" for n in g for i in range(len(g[n])) for d in ("down", "up")] + ["ep", "bg", "handler"]
    reqs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        has = rng.random() < 0.4
        reqs.append({"typ": rng.choice(["http", "http", "http", "websocket"]), "has": has, "init": [["a", "given"]] if has and rng.random() < 0.6 else [], "cookie": [["a", "cooked"]] if rng.random() < 0.5 else [],
                     "prog": {n: [anyop(rng, vals) for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))] for n in names}})  # fmt: skip
    return {"kind": "app", **g, "mount": bool(g["mid"]) or rng.random() < 0.2, "ep": rng.choice(["func", "plain", "class"]), "wsclass": rng.random() < 0.5, "fails": rng.choice(["", "", "", "http", "boom"]),
            "syncfail": rng.random() < 0.4, "app": [["a", "app"]] if rng.random() < 0.4 else [], "reqs": reqs, "waits": [rng.choice([0, 0, 0, 1, 2, 4]) for _ in range(7)],
            "backend": rng.choice(["asyncio", "trio"]), "seed": rng.randrange(1000)}  # fmt: skip


def flatscn(rng):
    vals = [0]
    ops, ns, nv = [], 0, 0
    for _ in range(rng.randrange(4, 26)):
        x = rng.random()
        if ns == 0 or x < 0.08:
            has = rng.random() < 0.5
            ops.append({"t": "start", "has": has, "init": [["a", "given"]] if has and rng.random() < 0.6 else []})
            ns += 1
        elif x < 0.15:
            ops.append({"t": "fork", "of": rng.randrange(ns) + 1})
            ns += 1
        elif nv == 0 or x < 0.3:
            ops.append({"t": "view", "sc": rng.randrange(ns) + 1})
            nv += 1
        else:
            again = [o for o in ops if o["t"] in ("look", "put", "sget")]
            e = dict(rng.choice(again)) if again and rng.random() < 0.25 else anyop(rng, vals)
            if "style" not in e or "v" in e or "sc" in e:
                # the same question as before, or another answer to it
                ops.append(e if e["t"] != "put" else {**e, "val": f"w{len(ops)}"})
                continue
            if e["t"] == "view":
                continue
            if rng.random() < 0.1:
                e = {"t": "look", "k": "path_params", "how": rng.choice(["prop", "item"])}
            elif rng.random() < 0.05:
                vals[0] += 1
                e = {"t": "put", "k": "path_params", "val": f"v{vals[0]}"}
            e.pop("at", None)
            e.pop("to", None)
            if e["t"] in ("rawset", "rawget", "put", "sput"):
                e["sc"] = rng.randrange(ns) + 1
            elif e["t"] not in ("aset",):
                e["v"] = rng.randrange(nv) + 1
                if e["t"] == "same":
                    e["w"] = rng.choice([e["v"], rng.randrange(nv) + 1])
            ops.append(e)
    return {"kind": "flat", "ops": ops, "app": [["a", "app"]] if rng.random() < 0.4 else [], "seed": rng.randrange(1000)}


def from_model(g, rng):
    ops, at = [], []
    for o in g:
        ops.append(dict(o))
        if o["t"] == "view":
            at.append(o["sc"])
        if o["t"] in ("put", "sput", "view", "fork") and rng.random() < 0.7:
            # reading makes no difference
            for v in range(1, len(at) + 1):
                ops += [{"t": "look", "v": v, "k": "user", "how": rng.choice(["prop", "prop", "item", "default", "has"])}, {"t": "sget", "v": v, "k": "a", "how": "attr"}]
    ns = sum(o["t"] in ("start", "fork") for o in ops)
    nv = sum(o["t"] == "view" for o in ops)
    for v in range(1, nv + 1):
        ops += [{"t": "look", "v": v, "k": "user", "how": "prop"}, {"t": "sget", "v": v, "k": "a", "how": "attr"}, {"t": "get", "v": v, "k": "a", "how": "default"}]
    ops += [{"t": "rawget", "sc": i, "k": "a", "how": "default"} for i in range(1, ns + 1)]
    return {"kind": "flat", "ops": ops, "app": [], "seed": rng.randrange(1000)}


def pick(t, rng, ok):
    ks = [i for i, e in enumerate(t["ev"]) if ok(e)]
    return rng.choice(ks) if ks else None


def mut(types):
    def m(t, rng):
        i = pick(t, rng, lambda e: e["t"] in types and e["got"] not in ("error", "True", "False"))
        if i is not None:
            t["ev"][i]["got"] = "v0" if t["ev"][i]["t"] != "keys" else [*t["ev"][i]["got"], "x9"]
            return t

    return m


def mut_lost(t, rng):
    """a value set is not there"""
    for i, e in enumerate(t["ev"]):
        if e["t"] in ("get", "rawget") and e["got"].startswith("v"):
            k = [j for j, x in enumerate(t["ev"][:i]) if x["t"] in ("set", "rawset") and x["val"] == e["got"]]
            if k:
                del t["ev"][k[0]]
                return t


def run(c):
    c.model("MC_Views", "MC_Views_big.cfg" if c.thorough else None, min_states=90000)
    gen = c.behaviours("MC_Views", "MC_Views_gen.cfg")
    c.rng.shuffle(gen)
    scns = [from_model(g, c.rng) for g in gen[: c.n(6000, 60000)]]
    scns += [flatscn(c.rng) for _ in range(c.n(4000, 60000))]
    scns += [appscn(c.rng) for _ in range(c.n(3000, 40000))]
    runs = list(zip(scns, core.run_pool(execute, scns)))
    c.validate("Trace_Views", runs, mutators=[mut(["get", "rawget"]), mut(["look", "keys"]), mut(["aget"]), mut(["sget"]), mut_lost])
