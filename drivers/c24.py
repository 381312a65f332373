"""C24: lifespans of every style, driven as a server drives them and through the test client, with connections in between."""

from __future__ import annotations

import contextlib
import warnings

import anyio

import asgi
import core
import sched
import shapes

EVENTS = ["params", "add", "deco"]
STYLES = ["cm", "agen", "sgen", "cmclass", "cmnested"]
MIDDLEWARE = ["basehttp", "pure", "gzip", "cors", "host", "auth", "session", "errors"]
KEYS = ["log", "k", "k2", "_u", "own"]


class StepErr(Exception):
    pass


class StepBase(BaseException):
    pass


class BodyErr(Exception):
    pass


def execute(scn):
    warnings.simplefilter("ignore")
    from starlette.applications import Starlette
    from starlette.authentication import AuthenticationBackend
    from starlette.middleware import Middleware
    from starlette.middleware.authentication import AuthenticationMiddleware
    from starlette.middleware.base import BaseHTTPMiddleware
    from starlette.middleware.cors import CORSMiddleware
    from starlette.middleware.exceptions import ExceptionMiddleware
    from starlette.middleware.gzip import GZipMiddleware
    from starlette.middleware.sessions import SessionMiddleware
    from starlette.middleware.trustedhost import TrustedHostMiddleware
    from starlette.responses import PlainTextResponse
    from starlette.routing import Route, Router, WebSocketRoute
    from starlette.testclient import TestClient

    cfg = scn["cfg"]
    style, seed = scn["style"], scn["seed"]
    ev = []
    cur = {"cyc": 0, "n": 0, "err": None, "list": None}

    def cyc():
        return cfg["cycles"][cur["cyc"]]

    def begin(w, i):
        ev.append({"t": w, "i": i})

    def end(w, i):
        c = cyc()
        if c["failat"] == w and c["step"] == i:
            cur["err"] = (StepBase if scn["base"] else StepErr)(f"step {w} {i} of {cur['cyc']}")
            ev.append({"t": "fail"})
            raise cur["err"]
        ev.append({"t": "fin"})

    async def astep(w, i):
        begin(w, i)
        for _ in range((seed + i) % 3):
            await anyio.lowlevel.checkpoint()
        end(w, i)

    def sstep(w, i):
        begin(w, i)
        end(w, i)

    def value():
        c = cyc()
        if c["none"]:
            return None
        cur["list"] = []
        if c["failat"] == "value":
            return [7, ["ab", "c"], "text", object()][seed % 4]
        return {k: (cur["list"] if k == "log" else v) for k, v in c["yields"]}

    async def ups():
        for i in range(1, cfg["up"] + 1):
            await astep("up", i)

    async def downs():
        for i in range(1, cfg["down"] + 1):
            await astep("down", i)

    @contextlib.contextmanager
    def swallowing():
        try:
            yield
        except Exception:
            if not cyc()["swallow"]:
                raise

    async def agen(app):
        await ups()
        with swallowing():
            yield value()
            await downs()

    def sgen(app):
        for i in range(1, cfg["up"] + 1):
            sstep("up", i)
        with swallowing():
            yield value()
            for i in range(1, cfg["down"] + 1):
                sstep("down", i)

    class Cm:
        def __init__(self, app):
            pass

        async def __aenter__(self):
            await ups()
            return value()

        async def __aexit__(self, typ, exc, tb):
            if typ is None:
                await downs()
            return cyc()["swallow"]

    @contextlib.asynccontextmanager
    async def nested(app):
        async with contextlib.AsyncExitStack() as st:
            await ups()

            async def leave(typ, exc, tb):
                if typ is None:
                    await downs()
                return cyc()["swallow"]

            st.push_async_exit(leave)
            yield value()

    def handler(w, i):
        if (seed + i) % 2:

            def h():
                sstep(w, i)
        else:

            async def h():
                await astep(w, i)

        return shapes.shape(h, (seed // 2 + i * (1 if w == "up" else 2)) % 6)

    def see(conn):
        st = conn.state
        sees = [[k, "L" if k == "log" and getattr(st, k) is cur["list"] else str(getattr(st, k))] for k in KEYS if hasattr(st, k)]
        st.own = "x"
        st.k = "changed"
        if hasattr(st, "k2"):
            del st.k2
        own = conn.state.own == "x" and st.k == "changed"
        log = []
        if hasattr(st, "log"):
            st.log.append(cur["n"])
            log = list(st.log)
        ev.append({"t": "req", "n": cur["n"], "sees": sees, "own": own, "log": log})

    async def http(request):
        see(request)
        return PlainTextResponse("ok")

    async def ws(websocket):
        await websocket.accept()
        see(websocket)
        await websocket.close()

    class Pass(BaseHTTPMiddleware):
        async def dispatch(self, request, call_next):
            return await call_next(request)

    def pure(app):
        async def a(scope, receive, send):
            await app(scope, receive, send)

        return a

    class Backend(AuthenticationBackend):
        async def authenticate(self, conn):
            return None

    table = {
        "basehttp": Middleware(Pass), "pure": Middleware(lambda app: pure(app)), "gzip": Middleware(GZipMiddleware), "cors": Middleware(CORSMiddleware, allow_origins=["*"]),
        "host": Middleware(TrustedHostMiddleware, allowed_hosts=["testserver"]), "auth": Middleware(AuthenticationMiddleware, backend=Backend()),
        "session": Middleware(SessionMiddleware, secret_key="s"), "errors": Middleware(ExceptionMiddleware),
    }  # fmt: skip
    mw = [table[m] for m in scn["mw"]]
    kw = {}
    if style == "params":
        kw = {"on_startup": [handler("up", i) for i in range(1, cfg["up"] + 1)], "on_shutdown": [handler("down", i) for i in range(1, cfg["down"] + 1)]}
        if seed % 3 == 0:
            # another application made with the same lists, which then gets handlers of its own
            other = Router(**kw)
            other.add_event_handler("startup", lambda: sstep("up", 99))
            other.add_event_handler("shutdown", lambda: sstep("down", 99))
        if scn["tuple"]:
            kw = {k: tuple(v) for k, v in kw.items()}
    elif style in STYLES:
        kw = {"lifespan": {"cm": contextlib.asynccontextmanager(agen), "agen": agen, "sgen": sgen, "cmclass": Cm, "cmnested": nested}[style]}
    routes = [Route("/", http), WebSocketRoute("/ws", ws)]
    if scn["kind"] == "router":
        app = Router(routes, middleware=mw, **kw)
    elif scn["kind"] == "wrapped":
        app = Starlette(routes=routes, **kw)
    else:
        app = Starlette(routes=routes, middleware=mw, debug=scn["kind"] == "debug", **kw)
    if style == "add":
        for w, e in (("up", "startup"), ("down", "shutdown")):
            for i in range(1, cfg[w] + 1):
                app.add_event_handler(e, handler(w, i))
    elif style == "deco":
        for w, e in (("up", "startup"), ("down", "shutdown")):
            for i in range(1, cfg[w] + 1):
                h = handler(w, i)
                assert app.on_event(e)(h) is h, "a decorator leaves the function alone"
    if scn["kind"] == "wrapped":
        for m in reversed(mw):
            app = m.cls(app, *m.args, **m.kwargs)

    async def recorder(scope, receive, send):
        if scope["type"] != "lifespan":
            await app(scope, receive, send)
            return

        async def rec():
            m = await receive()
            ev.append({"t": "recv", "type": m["type"]})
            return m

        async def tell(m):
            msg = m.get("message", "")
            ev.append({"t": "told", "type": m["type"], "text": "Traceback (most recent call last)" in msg and (cur["err"] is None or str(cur["err"]) in msg)})
            await send(m)

        cur["err"] = None
        exc = None
        try:
            await app(scope, rec, tell)
        except BaseException as e:
            exc = e
            raise
        finally:
            same = isinstance(exc, (RuntimeError, TypeError, ValueError)) if cur["err"] is None else exc is cur["err"]
            cur["over"] = {"t": "over", "exc": "E" if exc is not None else "", "same": same}
            cur["exc"] = exc
            if scn["mode"] == "server":
                ev.append(cur["over"])

    async def server():
        for k, c in enumerate(cfg["cycles"]):
            cur["cyc"] = k
            if k:
                ev.append({"t": "next"})
            scope = {"type": "lifespan", "asgi": {"version": "3.0"}, "state": {}}
            if c["failat"] == "yield":
                del scope["state"]
            inbox = []
            ready = anyio.Event()
            go = anyio.Event()

            async def receive(inbox=inbox, go=go, c=c):
                if not inbox:
                    inbox.append(1)
                    return {"type": "lifespan.startup"}
                await go.wait()
                if c["failat"] == "wait":
                    ev.append({"t": "lost"})
                    cur["err"] = (StepBase if scn["base"] else StepErr)("the server failed")
                    raise cur["err"]
                return {"type": "lifespan.shutdown"}

            async def send(m, ready=ready):
                ready.set()

            async def serve(scope=scope, receive=receive, send=send, ready=ready):
                try:
                    await recorder(scope, receive, send)
                except (StepErr, StepBase, RuntimeError, TypeError, ValueError) as e:
                    if e is not cur["exc"]:
                        raise
                finally:
                    ready.set()

            async with anyio.create_task_group() as tg:
                tg.start_soon(serve)
                await ready.wait()
                await sched.settle()
                if ev[-1]["t"] == "told" and ev[-1]["type"] == "lifespan.startup.complete":
                    for kind in c["reqs"]:
                        cur["n"] += 1
                        state = scope["state"].copy()
                        sc = asgi.http_scope(state=state) if kind == "http" else asgi.ws_scope(path="/ws", state=state)
                        if not scope["state"] and kind == "http" and seed % 2:
                            del sc["state"]
                        _, exc = await asgi.call(app, sc)
                        if exc:
                            raise exc
                go.set()

    def client():
        tc = None
        for k, c in enumerate(cfg["cycles"]):
            cur["cyc"] = k
            if k:
                ev.append({"t": "next"})
            if tc is None or scn["fresh"]:
                tc = TestClient(recorder, backend=scn["backend"])
            entered = False
            seen = None
            try:
                with tc as cl:
                    entered = True
                    for kind in c["reqs"]:
                        cur["n"] += 1
                        if kind == "http":
                            assert cl.get("/").text == "ok"
                        else:
                            with cl.websocket_connect("/ws"):
                                pass
                    if scn["bodyerr"]:
                        raise BodyErr
            except (StepErr, StepBase, BodyErr) as e:
                seen = e
            want = cur["exc"] if cur["exc"] is not None else BodyErr if scn["bodyerr"] and entered else None
            ok = isinstance(seen, BodyErr) if want is BodyErr else seen is want
            over = cur["over"]
            if not ok:
                over = {"t": "over", "exc": "" if seen is None else "E", "same": False}
            ev.append(over)

    if scn["mode"] == "server":
        sched.run(server, backend=scn["backend"])
    else:
        client()
    ev.append({"t": "end"})
    return {"cfg": {"up": cfg["up"], "down": cfg["down"], "cycles": [{k: v for k, v in c.items() if k != "reqs"} for c in cfg["cycles"]]}, "ev": ev}


VALUES = {"log": "L", "k": ["v", "", "é"], "k2": ["w"], "_u": ["z"]}


def dress(cfg, rng):
    none = all(c["none"] for c in cfg["cycles"])
    unsupported = any(c["failat"] in ("yield", "value", "wait") for c in cfg["cycles"])
    style = rng.choice(EVENTS + STYLES if none else STYLES)
    mode = "server" if unsupported or rng.random() < 0.8 else "client"
    # (an exception that is not an Exception also ends the event loop of the test client)
    return {"cfg": cfg, "style": style, "seed": rng.randrange(100), "base": mode == "server" and rng.random() < 0.2, "tuple": rng.random() < 0.5, "mw": rng.sample(MIDDLEWARE, rng.choice([0, 0, 1, 3])),
            "kind": rng.choice(["app", "app", "debug"] if style in ("add", "deco") else ["app", "router", "wrapped", "debug"]), "mode": mode,
            "fresh": rng.random() < 0.5, "bodyerr": rng.random() < 0.2, "backend": rng.choice(["asyncio", "trio"])}  # fmt: skip


def reqs(rng):
    return [rng.choice(["http", "http", "ws"]) for _ in range(rng.randrange(4))]


def from_model(g, rng):
    cyc = []
    k = 0
    counts = [0] * len(g["cfg"]["cycles"])
    for h in g["hist"]:
        if h["t"] == "next":
            k += 1
        counts[k] += h["t"] == "req"
    for c, n in zip(g["cfg"]["cycles"], counts):
        cyc.append({**c, "reqs": [rng.choice(["http", "ws"]) for _ in range(n)]})
    for c in cyc:
        c["swallow"] = c["failat"] in ("yield", "value") and rng.random() < 0.2
    return dress({"up": g["cfg"]["up"], "down": g["cfg"]["down"], "cycles": cyc}, rng)


def rnd(rng):
    up, down = rng.randrange(5), rng.randrange(5)
    none = rng.random() < 0.4
    keys = [k for k in ["log", "k", "k2", "_u"] if k == "log" or rng.random() < 0.5]
    cycles = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        failat, step = rng.choice([("", 0), ("", 0), ("up", 1), ("down", 1), ("yield", 0), ("value", 0), ("wait", 0)])
        if failat in ("up", "down"):
            top = up if failat == "up" else down
            failat, step = (failat, rng.randint(1, top)) if top else ("", 0)
        if none and failat in ("yield", "value"):
            failat = ""
        cycles.append({"failat": failat, "step": step, "swallow": failat in ("yield", "value") and rng.random() < 0.2, "none": none, "yields": [] if none else [[k, "L" if k == "log" else rng.choice(VALUES[k])] for k in keys], "reqs": reqs(rng)})
    return dress({"up": up, "down": down, "cycles": cycles}, rng)


def drop(kind):
    def m(t, rng):
        ks = [i for i, e in enumerate(t["ev"]) if e["t"] == kind]
        if ks:
            del t["ev"][rng.choice(ks)]
            return t

    return m


def twice(t, rng):
    ks = [i for i, e in enumerate(t["ev"]) if e["t"] in ("up", "down")]
    if ks:
        i = rng.choice(ks)
        t["ev"][i:i] = t["ev"][i : i + 2]
        return t


def early(t, rng):
    ks = [i for i, e in enumerate(t["ev"]) if e["t"] == "told" and i >= 2 and t["ev"][i - 1]["t"] == "fin"]
    if ks:
        i = rng.choice(ks)
        t["ev"][i - 2 : i + 1] = [t["ev"][i], *t["ev"][i - 2 : i]]
        return t


def sees(t, rng):
    ks = [e for e in t["ev"] if e["t"] == "req"]
    if ks:
        rng.choice(ks)["sees"].append(["own", "x"])
        return t


def log(t, rng):
    ks = [e for e in t["ev"] if e["t"] == "req" and len(e["log"]) > 1]
    if ks:
        del rng.choice(ks)["log"][0]
        return t


def text(t, rng):
    ks = [e for e in t["ev"] if e["t"] == "told" and "failed" in e["type"]]
    if ks:
        rng.choice(ks)["text"] = False
        return t


def swallowed(t, rng):
    e = rng.choice([e for e in t["ev"] if e["t"] == "over"])
    e["exc"] = "" if e["exc"] else "E"
    return t


def run(c):
    c.model("MC_Lifespan", "MC_Lifespan_big.cfg" if c.thorough else None, min_states=15000)
    scns = [from_model(g, c.rng) for g in c.behaviours("MC_Lifespan", "MC_Lifespan_gen.cfg") for _ in range(c.n(5, 40))]
    scns += [rnd(c.rng) for _ in range(c.n(2500, 40000))]
    runs = list(zip(scns, core.run_pool(execute, scns)))
    c.validate("Trace_Lifespan", runs, mutators=[drop("up"), drop("told"), drop("over"), twice, early, sees, log, text, swallowed])
