"""C12: the request body through stacks of BaseHTTPMiddleware."""

from __future__ import annotations

import anyio

import asgi
import core
import sched


def layer(kind, after, i, app, ev, sub):
    from starlette.middleware.base import BaseHTTPMiddleware

    async def dispatch(request, call_next):
        if kind in ("body", "bodystream", "bodypoll"):
            v = await request.body()
            if kind == "bodystream":
                v = b"".join([c async for c in request.stream()])
            ev.append({"t": "read", "i": i, "v": v.decode()})
            if kind == "bodypoll":
                ev.append({"t": "poll", "v": await request.is_disconnected()})
        elif kind == "json":
            try:
                await request.json()
            except ValueError:
                pass
            ev.append({"t": "read", "i": i, "v": (await request.body()).decode()})
        elif kind == "stream":
            v = b"".join([c async for c in request.stream()])
            ev.append({"t": "read", "i": i, "v": v.decode()})
        elif kind == "form":
            f = await request.form()
            ev.append({"t": "read", "i": i, "v": "".join(k for k, _ in f.multi_items())})
        elif kind == "poll":
            ev.append({"t": "poll", "v": await request.is_disconnected()})
        response = await call_next(request)
        if after == "body":
            try:
                v = await request.body()
                ev.append({"t": "after", "i": i, "ok": True, "v": v.decode()})
            except Exception:
                ev.append({"t": "after", "i": i, "ok": False, "v": ""})
        return response

    if sub:

        class Mw(BaseHTTPMiddleware):
            async def dispatch(self, request, call_next):
                return await dispatch(request, call_next)

        return Mw(app)
    return BaseHTTPMiddleware(app, dispatch=dispatch)


def execute(scn):
    from starlette.requests import Request

    ev = []

    async def main():
        inbox = sched.Inbox()
        gate = sched.Gate()
        gone = []

        async def app(scope, receive, send):
            ev.append({"t": "start"})

            async def ask():
                ev.append({"t": "ask"})
                m = await receive()
                ev.append({"t": "give", "m": {"ty": m["type"], "body": m.get("body", b"").decode(), "more": m.get("more_body", False)}})
                return m

            for x in scn["app"]:
                await gate.wait()
                if x == "recv":
                    await ask()
                elif x == "req":
                    try:
                        await Request(scope, ask).body()
                    except Exception:
                        pass
                elif x == "resp":
                    await send({"type": "http.response.start", "status": 200, "headers": []})
                    if scn["style"] % 2:
                        await send({"type": "http.response.body", "body": b"x", "more_body": True})
                    ev.append({"t": "resp"})
                    await send({"type": "http.response.body", "body": b"y"})

        wrapped = app
        for i in range(len(scn["layers"]), 0, -1):
            wrapped = layer(scn["layers"][i - 1], scn["after"][i - 1], i, wrapped, ev, (scn["style"] + i) % 3 == 0)

        async def receive():
            if gone and not inbox.items and not scn["once"]:
                return {"type": "http.disconnect"}
            m = await inbox.get()
            if m["type"] == "http.disconnect":
                gone.append(1)
            return m

        async def send(m):
            if m["type"] == "http.response.body" and not m.get("more_body"):
                ev.append({"t": "told"})

        async def call():
            exc = ""
            try:
                await wrapped(asgi.http_scope("POST", headers=[("content-type", "application/x-www-form-urlencoded")]), receive, send)
            except Exception as e:
                exc = type(e).__name__
            ev.append({"t": "ret", "exc": exc})

        async def quiet():
            await sched.settle()
            ev.append({"t": "quiet"})

        async with anyio.create_task_group() as tg:
            feed = list(scn["feed"])
            k = 0
            while k < scn["early"] and feed:
                m = feed.pop(0)
                ev.append({"t": "push", "m": m})
                inbox.push(real(m, scn))
                k += 1
            tg.start_soon(call)
            await quiet()
            for step in scn["order"]:
                if step == "push":
                    if not feed:
                        continue
                    m = feed.pop(0)
                    ev.append({"t": "push", "m": m})
                    inbox.push(real(m, scn))
                else:
                    gate.release()
                if scn["eager"] and step == "push":
                    continue
                await quiet()
            await quiet()
            done = list(ev)
            tg.cancel_scope.cancel()
        return done

    return {"cfg": {"layers": scn["layers"]}, "ev": sched.run(main, backend=scn["backend"], seed=scn["seed"])}


def real(m, scn):
    if m["ty"] == "http.disconnect":
        return {"type": "http.disconnect"}
    out = {"type": "http.request"}
    if m["body"] or scn["style"] % 2:
        out["body"] = m["body"].encode()
    if m["more"] or scn["style"] % 3:
        out["more_body"] = m["more"]
    return out


KINDS = ["pass", "pass", "body", "json", "bodystream", "stream", "form", "poll", "poll", "bodypoll", "bodypoll"]


def dress(scn, rng):
    n = len(scn["layers"])
    app = []
    for _ in range(rng.randrange(5)):
        app.append(rng.choice(["recv", "recv", "req"]))
    scn["after"] = ["none"] * n
    if rng.random() < 0.35 and n:
        scn["after"][rng.randrange(n)] = "body"
        app.append("resp")
    else:
        app.append("resp")
        for _ in range(rng.randrange(3)):
            app.append("recv")
    scn["app"] = app
    early = scn["early"] = rng.randrange(len(scn["feed"]) + 1)
    order = ["push"] * (len(scn["feed"]) - early) + ["go"] * len(app)
    rng.shuffle(order)
    if rng.random() < 0.3:
        order.sort(reverse=rng.random() < 0.7)
    scn["order"] = order
    scn["eager"] = rng.random() < 0.3
    scn["style"] = rng.randrange(6)
    scn["backend"] = rng.choice(["asyncio", "asyncio", "trio"])
    scn["seed"] = rng.randrange(1000)
    scn["once"] = "poll" not in scn["layers"] and rng.random() < 0.4  # a server saying only once that the client is gone
    return scn


def rnd(rng):
    layers = [rng.choice(KINDS) for _ in range(rng.randrange(1, 5))]
    if rng.random() < 0.3:
        layers = [rng.choice(["pass", "poll"]) for _ in layers]
    n = rng.randrange(1, 6)
    feed = []
    for k in range(n):
        b = rng.choice(["1", "2", "34", "", "5" * 30])
        feed.append({"ty": "http.request", "body": b, "more": k < n - 1})
    gone = {"ty": "http.disconnect", "body": "", "more": False}
    q = rng.random()
    if q < 0.3:
        feed = feed[: rng.randrange(n)] + [gone]
    elif q < 0.6:
        feed.append(gone)
    return {"layers": layers, "feed": feed}


def gave(e):
    return e["t"] == "give" and e["m"]["ty"] == "http.request" and e["m"]["body"]


def mut_dup(t, rng):
    for k, e in enumerate(t["ev"]):
        if gave(e):
            e["m"]["body"] += e["m"]["body"]
            return t


def mut_lose(t, rng):
    for k, e in enumerate(t["ev"]):
        if gave(e):
            e["m"]["body"] = e["m"]["body"][1:] or "?"
            if e["m"]["body"] == "5" * 29:
                return None
            return t


def mut_end(t, rng):
    for k, e in enumerate(t["ev"]):
        if e["t"] == "give" and e["m"]["more"]:
            t["ev"] = t["ev"][: k + 1]
            e["m"]["more"] = False
            if any(x["t"] == "push" and x["m"]["ty"] == "http.request" and not x["m"]["more"] for x in t["ev"]):
                return None
            return t


def mut_hang(t, rng):
    for k, e in enumerate(t["ev"]):
        if e["t"] == "give":
            t["ev"] = t["ev"][:k] + [{"t": "quiet"}]
            return t


def run(c):
    c.model("MC_BodyThrough", min_states=10000)
    scns = [s for s in c.behaviours("MC_BodyThrough", "MC_BodyThrough_gen.cfg") if s["layers"]]
    for s in scns:
        for m in s["feed"]:
            m["body"] = {"a": "1", "b": "2", "": ""}[m["body"]]
    cap = c.n(6000, 14000)
    if len(scns) > cap:
        scns = c.rng.sample(scns, cap)
    scns += [rnd(c.rng) for _ in range(c.n(7000, 80000))]
    scns = [dress(s, c.rng) for s in scns]
    runs = list(zip(scns, core.run_pool(execute, scns)))
    c.validate("Trace_BodyThrough", runs, mutators=[mut_dup, mut_lose, mut_end, mut_hang])
