"""C13: stacks of BaseHTTPMiddleware around an application that is driven step by step."""

from __future__ import annotations

import anyio

import asgi
import core
import sched


class AppErr(Exception):
    pass


class Boom(Exception):
    pass


def layer(kind, i, app, ev, style, own_stream):
    from starlette.background import BackgroundTask
    from starlette.middleware.base import BaseHTTPMiddleware
    from starlette.responses import PlainTextResponse, Response, StreamingResponse

    def own(status, body):
        return PlainTextResponse(body, status, headers={"x-h": "own"})

    async def bg():
        ev.append({"t": "mwbg", "i": i})

    async def dispatch(request, call_next):
        if kind == "answer":
            return own(299, "mw")
        if kind == "early":
            raise Boom()
        if kind == "catch":
            try:
                return await call_next(request)
            except Exception:
                return own(298, "caught")
        response = await call_next(request)
        if kind == "header":
            response.headers["x-h"] += "+h"
        elif kind == "bg":
            response.background = BackgroundTask(bg)
        elif kind == "upper":
            it = response.body_iterator

            async def up():
                async for c in it:
                    yield c.upper()

            if style % 2 or not own_stream:
                response.body_iterator = up()
            else:
                h = {k: v for k, v in response.headers.items()}
                response = StreamingResponse(up(), response.status_code, headers=h)
        elif kind == "replace":
            return own(297, "re")
        elif kind == "consume":
            body = b""
            async for c in response.body_iterator:
                body += c
            return Response(body, response.status_code, headers={"x-h": response.headers["x-h"]})
        elif kind == "raise":
            raise Boom()
        return response

    if style % 3 == 0:

        class Mw(BaseHTTPMiddleware):
            async def dispatch(self, request, call_next):
                return await dispatch(request, call_next)

        return Mw(app)
    return BaseHTTPMiddleware(app, dispatch=dispatch)


def execute(scn):
    ev = []

    async def main():
        gate = sched.Gate()
        inbox = sched.Inbox([{"type": "http.request", "body": b"", "more_body": False}])
        gone = []
        st = {"told": 0, "open": None}
        err = AppErr("x")

        async def app(scope, receive, send):
            ev.append({"t": "appstart"})

            async def emit(m, rec):
                ev.append({"t": "emit", "m": rec})
                await send(m)
                ev.append({"t": "sent"})

            try:
                for x in scn["script"]:
                    await gate.wait()
                    if x == "start":
                        await emit({"type": "http.response.start", "status": 200, "headers": [(b"x-h", b"x")]},
                                   {"ty": "http.response.start", "status": 200, "hdr": "x"})  # fmt: skip
                    elif x == "start0":
                        await emit({"type": "http.response.start", "status": 200}, {"ty": "http.response.start", "status": 200, "hdr": ""})
                    elif x == "debug":
                        await emit({"type": "http.response.debug", "info": {"template": "t"}}, {"ty": "http.response.debug"})
                    elif x.startswith("P"):
                        await emit({"type": "http.response.pathsend", "path": x[1:]}, {"ty": "http.response.pathsend", "body": x[1:], "more": False})
                    elif x == "recv":
                        await receive()
                    elif x == "bg":
                        ev.append({"t": "appbg"})
                    elif x == "raise":
                        ev.append({"t": "append", "how": "raised"})
                        raise err
                    elif x == "done":
                        break
                    else:
                        fin = x.startswith("F")
                        b = x[1:] if fin else x
                        m = {"type": "http.response.body", "body": b.encode(), "more_body": not fin}
                        if scn["sparse"] and fin:
                            del m["more_body"]
                        if scn["sparse"] and not b:
                            del m["body"]
                        await emit(m, {"ty": "http.response.body", "body": b, "more": not fin})
                else:
                    await anyio.sleep_forever()
                ev.append({"t": "append", "how": "done"})
            except AppErr:
                raise
            except BaseException:
                ev.append({"t": "append", "how": "cancelled"})
                raise

        wrapped = app
        for i in range(len(scn["layers"]), 0, -1):
            wrapped = layer(scn["layers"][i - 1], i, wrapped, ev, scn["style"] + i, not scn["gone"] or scn["spec"] == "2.4")

        async def receive():
            if gone and not inbox.items:
                return {"type": "http.disconnect"}
            return await inbox.get()

        async def send(m):
            st["told"] += 1
            hold = st["told"] in scn["holds"]
            if m["type"] == "http.response.start":
                rec = {"ty": m["type"], "status": m["status"], "hdr": asgi.header(m, "x-h") or ""}
            elif m["type"] == "http.response.debug":
                rec = {"ty": m["type"] if m["info"] == {"template": "t"} else "?"}
            elif m["type"] == "http.response.pathsend":
                rec = {"ty": m["type"], "body": m["path"], "more": False}
            else:
                rec = {"ty": m["type"], "body": m.get("body", b"").decode(), "more": m.get("more_body", False)}
            ev.append({"t": "told", "m": rec, "hold": hold})
            if hold:
                st["open"] = anyio.Event()
                await st["open"].wait()
            if st["told"] == scn["lose"]:
                ev.append({"t": "lost"})
                raise OSError("lost")
            elif scn["yield"]:
                await anyio.lowlevel.checkpoint()

        async def call():
            exc = None
            try:
                await wrapped(asgi.http_scope(asgi={"version": "3.0", "spec_version": scn["spec"]}), receive, send)
            except Exception as e:
                exc = e
            ev.append({"t": "ret", "exc": type(exc).__name__ if exc else "",
                       "same": exc is err if isinstance(exc, AppErr) else True})  # fmt: skip

        def release():
            if st["open"] is not None:
                ev.append({"t": "release"})
                st["open"].set()
                st["open"] = None

        async with anyio.create_task_group() as tg:
            tg.start_soon(call)
            if not scn["eager"]:
                await sched.settle()
                ev.append({"t": "quiet"})
            for k in range(len(scn["script"])):
                if k in scn["gone"]:
                    gone.append(1)
                    inbox.push({"type": "http.disconnect"})
                gate.release()
                if scn["eager"] and k % 2:
                    continue
                await sched.settle()
                ev.append({"t": "quiet"})
                if k in scn["rel"]:
                    release()
                    await sched.settle()
                    ev.append({"t": "quiet"})
            while st["open"] is not None:
                release()
                await sched.settle()
                ev.append({"t": "quiet"})
            await sched.settle()
            ev.append({"t": "quiet"})
            done = list(ev)
            tg.cancel_scope.cancel()
        return done

    return {"cfg": {"layers": scn["layers"]}, "ev": sched.run(main, backend=scn["backend"], seed=scn["seed"])}


KINDS = ["pass", "pass", "pass", "bg", "header", "upper", "answer", "replace", "catch", "consume", "raise", "early"]


def dress(scn, rng):
    n = len(scn["script"])
    calm = rng.random() < 0.3
    scn.update(
        backend=rng.choice(["asyncio", "asyncio", "trio"]), seed=rng.randrange(1000), style=rng.randrange(6), sparse=rng.random() < 0.3,
        holds=[] if calm else sorted(rng.sample(range(1, n + 2), min(n, rng.randrange(4)))),
        rel=[k for k in range(n) if rng.random() < 0.5], gone=[rng.randrange(n)] if n and rng.random() < 0.4 else [],
        eager=rng.random() < 0.3,
    )  # fmt: skip
    scn["spec"] = rng.choice(["2.3", "2.4"])
    scn["lose"] = rng.randrange(1, n + 2) if rng.random() < 0.1 else 0
    scn["yield"] = rng.random() < 0.4
    return scn


def rnd(rng):
    layers = [rng.choice(KINDS if rng.random() < 0.5 else KINDS[:6]) for _ in range(rng.randrange(1, 5))]
    script = []
    if rng.random() < 0.9:
        if rng.random() < 0.2:
            script.append("recv")
        script.append("start")
        for _ in range(rng.randrange(6)):
            script.append(rng.choice(["a", "b", "ab", "", "x" * 20]))
        if rng.random() < 0.75:
            script.append("F" + rng.choice(["", "z"]))
            for _ in range(rng.randrange(3)):
                script.append(rng.choice(["bg", "recv"]))
        else:
            script.append("raise")
    script.append(rng.choice(["done", "done", "raise"]))
    if "start" in script:
        k = script.index("start")
        if rng.random() < 0.15 and not {"header", "consume", "upper"} & set(layers):
            script[k] = "start0"
        if rng.random() < 0.2 and not {"consume", "upper"} & set(layers) and any(x.startswith("F") for x in script):
            f = next(i for i, x in enumerate(script) if x.startswith("F"))
            script[k + 1 : f + 1] = ["P/srv/f"]
        if rng.random() < 0.15 and "upper" not in layers:
            script.insert(k, "debug")
    return {"layers": layers, "script": script}


def mut_complete(t, rng):
    """a truncated response presented as complete"""
    if any(e["t"] == "append" and e["how"] == "raised" for e in t["ev"]):
        for k in range(len(t["ev"]) - 1, -1, -1):
            e = t["ev"][k]
            if e["t"] == "told" and e["m"].get("more"):
                e["m"]["more"] = False
                return t


def mut_swallow(t, rng):
    for e in t["ev"]:
        if e["t"] == "ret" and e["exc"]:
            e["exc"] = ""
            return t


def mut_body(t, rng):
    for e in t["ev"]:
        if e["t"] == "told" and e["m"].get("body"):
            e["m"]["body"] += "?"
            return t


def mut_lose(t, rng):
    for k, e in enumerate(t["ev"]):
        if e["t"] == "told" and e["m"].get("body"):
            del t["ev"][k]
            return t


def mut_left_running(t, rng):
    for k, e in enumerate(t["ev"]):
        if e["t"] == "append" and e["how"] == "done":
            del t["ev"][k]
            return t


def run(c):
    c.model("MC_Relay", min_states=50000)
    scns = c.behaviours("MC_Relay", "MC_Relay_gen.cfg")
    cap = c.n(5000, 12000)
    if len(scns) > cap:
        scns = c.rng.sample(scns, cap)
    scns += [rnd(c.rng) for _ in range(c.n(7000, 60000))]
    scns = [dress(s, c.rng) for s in scns]
    runs = list(zip(scns, core.run_pool(execute, scns)))
    c.validate("Trace_Relay", runs, mutators=[mut_complete, mut_swallow, mut_body, mut_lose, mut_left_running])
