"""C28: concurrent requests of plain and asynchronous steps of every kind, each step held up until the schedule lets it go on."""

from __future__ import annotations

import contextvars
import functools
import threading

import anyio
import anyio.to_thread

import asgi
import core
import sched

CV = contextvars.ContextVar("CV", default=0)


class StepErr(Exception):
    pass


class Gates:
    def __init__(self, n):
        self.t = {r: sched.ThreadGate() for r in range(1, n + 1)}
        self.a = {r: sched.Gate() for r in range(1, n + 1)}

    def stuck(self):
        return sum(g.stuck() for g in self.t.values())

    def waiting(self):
        return [r for r in self.t if self.t[r].stuck() or self.a[r].waiters]

    def release(self, r):
        if self.t[r].stuck():
            self.t[r].release()
        else:
            self.a[r].release()


PLAIN = ["def", "partial", "callable", "method", "lambda", "wrapped", "partialcallable", "static"]
ASYNC = ["def", "partial", "callable", "method", "wrapped", "partialcallable", "partial2", "static"]


def shape(kind, plain, body, abody):
    """body as a callable of the given kind"""
    if plain:

        def f(*a, **k):
            return body(*a, **k)

        class C:
            def __call__(self, *a, **k):
                return body(*a, **k)

            def m(self, *a, **k):
                return body(*a, **k)

            @staticmethod
            def s(*a, **k):
                return body(*a, **k)
    else:

        async def f(*a, **k):
            return await abody(*a, **k)

        class C:
            async def __call__(self, *a, **k):
                return await abody(*a, **k)

            async def m(self, *a, **k):
                return await abody(*a, **k)

            @staticmethod
            async def s(*a, **k):
                return await abody(*a, **k)

    if kind == "wrapped":
        if plain:

            @functools.wraps(f)
            def g(*a, **k):
                return f(*a, **k)
        else:

            @functools.wraps(f)
            async def g(*a, **k):
                return await f(*a, **k)

        return g
    return {"def": f, "partial": functools.partial(f), "callable": C(), "method": C().m, "lambda": lambda *a, **k: body(*a, **k), "partialcallable": functools.partial(C()),
            "partial2": functools.partial(functools.partial(f)), "static": C.s}[kind]  # fmt: skip


def execute(scn):
    from starlette.applications import Starlette
    from starlette.background import BackgroundTask, BackgroundTasks
    from starlette.concurrency import iterate_in_threadpool, run_in_threadpool
    from starlette.endpoints import HTTPEndpoint
    from starlette.responses import PlainTextResponse, StreamingResponse
    from starlette.routing import Route, WebSocketRoute

    cfg = scn["cfg"]
    ev = []
    n = len(cfg["reqs"])
    gates = Gates(n)
    loop_thread = []
    errs = {r: StepErr(r) for r in range(1, n + 1)}

    def begin(r, w, k, args):
        ev.append({"t": "begin", "r": r, "w": w, "k": k, "loop": threading.get_ident() == loop_thread[0], "ctx": CV.get(), "args": args})

    def pstep(r, w, k, args=True):
        begin(r, w, k, args)
        if threading.get_ident() != loop_thread[0]:
            gates.t[r].wait()
        ev.append({"t": "end", "r": r})

    async def astep(r, w, k, args=True):
        begin(r, w, k, args)
        if threading.get_ident() == loop_thread[0]:
            await gates.a[r].wait()
        ev.append({"t": "end", "r": r})

    def items(r, p, kind):
        def bad(k):
            return p["breakat"] == k

        def gen():
            for k in range(1, p["items"] + 1):
                pstep(r, "item", k)
                if bad(k):
                    raise errs[r]
                yield str(k)

        async def agen():
            for k in range(1, p["items"] + 1):
                await astep(r, "item", k)
                if bad(k):
                    raise errs[r]
                yield str(k)

        class It:
            def __init__(self):
                self.k = 0

            def __iter__(self):
                return self

            def __next__(self):
                self.k += 1
                if self.k > p["items"]:
                    raise StopIteration
                pstep(r, "item", self.k)
                if bad(self.k):
                    raise errs[r]
                return str(self.k).encode()

        class Iterable:
            def __iter__(self):
                yield from gen()

        class AIt:
            def __init__(self):
                self.k = 0

            def __aiter__(self):
                return self

            async def __anext__(self):
                self.k += 1
                if self.k > p["items"]:
                    raise StopAsyncIteration
                await astep(r, "item", self.k)
                if bad(self.k):
                    raise errs[r]
                return str(self.k)

        def one(k):
            pstep(r, "item", k)
            if bad(k):
                raise errs[r]
            return str(k)

        if p["iter"]:
            return [gen, It, Iterable, lambda: map(one, range(1, p["items"] + 1)), lambda: (one(k) for k in range(1, p["items"] + 1))][kind % 5]()
        return [agen, AIt][kind % 2]()

    def background(r, p, kinds):
        if not p["tasks"]:
            return None
        ts = []
        for k, plain in enumerate(p["tasks"], 1):

            def body(a, *, b, k=k):
                pstep(r, "task", k, (a, b) == (r, k))
                if p["failing"] == k:
                    raise errs[r]
                return object()

            async def abody(a, *, b, k=k):
                await astep(r, "task", k, (a, b) == (r, k))
                if p["failing"] == k:
                    raise errs[r]

            ts.append((shape((PLAIN if plain else ASYNC)[kinds[k] % 8], plain, body, abody), k))
        if len(ts) == 1 and kinds[0] % 2:
            return BackgroundTask(ts[0][0], r, b=1)
        if kinds[0] % 4 < 2:
            bt = BackgroundTasks()
            for f, k in ts:
                bt.add_task(f, r, b=k)
            return bt
        return BackgroundTasks([BackgroundTask(f, r, b=k) for f, k in ts])

    def outcome(r, p, x):
        if p["out"] == "raise":
            raise errs[r]
        bg = background(r, p, x["kinds"])
        if p["out"] == "value":
            return PlainTextResponse("value", background=bg)
        return StreamingResponse(items(r, p, x["kinds"][0]), background=bg)

    def route(r, p, x):
        if x["ws"]:

            async def ws(websocket):
                await astep(r, "ep", 1, websocket.path_params.get("r") == r)
                raise errs[r]

            return WebSocketRoute(f"/{r}/" + "{r:int}", ws)

        def ok(request):
            return request.path_params.get("r") == r

        def body(request):
            pstep(r, "ep", 1, ok(request))
            return outcome(r, p, x)

        async def abody(request):
            await astep(r, "ep", 1, ok(request))
            return outcome(r, p, x)

        if x["ep"] == 8:
            if p["ep"]:

                class E(HTTPEndpoint):
                    def get(self, request):
                        return body(request)
            else:

                class E(HTTPEndpoint):
                    async def get(self, request):
                        return await abody(request)

            ep = E
        else:
            kind = (PLAIN if p["ep"] else ASYNC)[x["ep"]]
            f = shape(kind, p["ep"], body, abody)
            ep = f
            if kind in ("callable", "partialcallable"):
                # (as an endpoint, such an object is an application: only functions get a request)
                ep = shape("def", p["ep"], body, abody)
        return Route(f"/{r}/" + "{r:int}", ep)

    def handler_for(r, p, x):
        def body(request, exc):
            pstep(r, "handler", 1, exc is errs[r] and request.path_params.get("r") == r)
            return PlainTextResponse("handled")

        async def abody(request, exc):
            await astep(r, "handler", 1, exc is errs[r] and request.path_params.get("r") == r)
            return PlainTextResponse("handled")

        return shape((PLAIN if p["handler"] else ASYNC)[x["kinds"][1] % 8], p["handler"], body, abody)

    async def one(r, p, x, app):
        CV.set(r)
        scope = asgi.http_scope(path=f"/{r}/{r}")
        if x["ws"]:
            scope = asgi.ws_scope(f"/{r}/{r}", extensions={"websocket.http.response": {}})
        if x["kinds"][2] % 2:
            scope["asgi"]["spec_version"] = "2.4"
        sent, exc = await asgi.call(app, scope)
        body = [m["body"].decode() for m in sent if m["type"].endswith("http.response.body") and m["body"]]
        ev.append({"t": "over", "r": r, "exc": exc is not None, "same": exc is None or exc is errs[r], "body": body})

    async def direct(r, p, x):
        """the same program by the functions for it"""
        CV.set(r)
        body, exc = [], None
        token = object()

        def ep(a, b=0):
            pstep(r, "ep", 1, (a, b) == (1, 2))
            if p["out"] == "raise":
                raise errs[r]
            return token

        try:
            try:
                got = await run_in_threadpool(ep, 1, b=2) if x["ep"] % 2 else await run_in_threadpool(functools.partial(ep, 1), b=2)
                assert got is token
                if p["out"] == "value":
                    body = ["value"]
                else:
                    async for c in iterate_in_threadpool(items(r, p, x["kinds"][0])):
                        body.append(c if isinstance(c, str) else c.decode())
            except StepErr as e:
                if p["out"] != "raise":
                    raise
                assert e is errs[r]

                def handle():
                    pstep(r, "handler", 1)
                    return ["handled"]

                body = await run_in_threadpool(handle)
            bg = background(r, p, x["kinds"])
            if p["out"] != "raise" and bg:
                await bg()
        except StepErr as e:
            exc = e
        ev.append({"t": "over", "r": r, "exc": exc is not None, "same": exc is None or exc is errs[r], "body": body})

    async def main():
        loop_thread.append(threading.get_ident())
        anyio.to_thread.current_default_thread_limiter().total_tokens = scn["workers"]
        apps = {}
        pinged = []

        async def ping(request):
            pinged.append(threading.get_ident() == loop_thread[0])
            return PlainTextResponse("pong")

        for r, (p, x) in enumerate(zip(cfg["reqs"], scn["extra"]), 1):
            if x["direct"]:
                continue
            cls = (Exception if x["kinds"][3] % 2 else 500) if p["reraise"] else StepErr
            apps[r] = Starlette(routes=[Route("/ping", ping), route(r, p, x)], exception_handlers={cls: handler_for(r, p, x)} if p["out"] == "raise" else {})
        other = Starlette(routes=[Route("/ping", ping)])
        todo = list(scn["start"])
        plan = list(scn["sched"])
        over = set()
        async with anyio.create_task_group() as tg:
            while True:
                await sched.settle_threads(gates)
                if gates.waiting():
                    sent, exc = await asgi.call(apps.get(1, other), asgi.http_scope(path="/ping"))
                    ev.append({"t": "ping", "ok": exc is None and [m.get("body") for m in sent][1:] == [b"pong"] and pinged[-1]})
                ready = gates.waiting()
                if todo and (not ready or todo[0][1] <= 0):
                    r = todo.pop(0)[0]
                    p, x = cfg["reqs"][r - 1], scn["extra"][r - 1]
                    if x["direct"]:
                        tg.start_soon(direct, r, p, x)
                    else:
                        tg.start_soon(one, r, p, x, apps[r])
                    continue
                if todo:
                    todo[0] = (todo[0][0], todo[0][1] - 1)
                if not ready:
                    break
                while plan and plan[0] not in ready:
                    plan.pop(0)
                gates.release(plan.pop(0) if plan else ready[len(ev) % len(ready)])
        over.clear()

    sched.run(main, backend=scn["backend"])
    ev.append({"t": "done"})
    return {"cfg": cfg, "ev": ev}


def dress(reqs, sch, rng):
    extra = [{"ep": rng.randrange(9), "kinds": [rng.randrange(40) for _ in range(6)], "direct": r["ep"] and r["iter"] and r["handler"] and not r["reraise"] and rng.random() < 0.4,
              "ws": not r["ep"] and r["out"] == "raise" and not r["reraise"] and rng.random() < 0.4} for r in reqs]  # fmt: skip
    return {"cfg": {"reqs": reqs}, "extra": extra, "sched": sch, "start": [(i + 1, rng.choice([0, 0, 1, 3])) for i in range(len(reqs))], "workers": rng.choice([40, 40, 2, 1]), "backend": rng.choice(["asyncio", "trio"])}


def from_model(g, rng):
    return dress(g["reqs"], g["hist"], rng)


def rnd(rng):
    reqs = []
    b = lambda: rng.random() < 0.5  # noqa: E731
    for _ in range(rng.choice([1, 2, 3, 3, 5])):
        out = rng.choice(["value", "raise", "stream", "stream"])
        n = rng.choice([0, 1, 2, 4]) if out == "stream" else 0
        ts = [b() for _ in range(rng.choice([0, 0, 1, 2, 3]))] if out != "raise" else []
        reqs.append({"ep": b(), "out": out, "handler": b(), "items": n, "iter": b(), "breakat": rng.randint(1, n) if n and rng.random() < 0.2 else 0, "tasks": ts,
                     "failing": rng.randint(1, len(ts)) if ts and rng.random() < 0.2 else 0, "reraise": out == "raise" and rng.random() < 0.3})  # fmt: skip
    sch = [rng.randint(1, len(reqs)) for _ in range(12)]
    return dress(reqs, sch, rng)


def pick(t, rng, ok):
    ks = [e for e in t["ev"] if ok(e)]
    return rng.choice(ks) if ks else None


def mut_loop(t, rng):
    e = pick(t, rng, lambda e: e["t"] == "begin")
    e["loop"] = not e["loop"]
    return t


def mut_ctx(t, rng):
    e = pick(t, rng, lambda e: e["t"] == "begin")
    e["ctx"] = 0
    return t


def mut_body(t, rng):
    e = pick(t, rng, lambda e: e["t"] == "over" and len(e["body"]) > 1)
    if e:
        e["body"].reverse()
        return t


def mut_same(t, rng):
    e = pick(t, rng, lambda e: e["t"] == "over" and e["exc"])
    if e:
        e["same"] = False
        return t


def mut_drop(t, rng):
    i = rng.choice([i for i, e in enumerate(t["ev"]) if e["t"] in ("begin", "over")])
    del t["ev"][i]
    return t


def mut_ping(t, rng):
    e = pick(t, rng, lambda e: e["t"] == "ping")
    if e:
        e["ok"] = False
        return t


def run(c):
    c.model("MC_Threads", "MC_Threads_big.cfg" if c.thorough else None, min_states=20000)
    gs = c.behaviours("MC_Threads", "MC_Threads_gen.cfg")
    scns = [from_model(g, c.rng) for g in c.rng.sample(gs, c.n(1000, len(gs)))]
    scns += [rnd(c.rng) for _ in range(c.n(1200, 15000))]
    runs = list(zip(scns, core.run_pool(execute, scns)))
    c.validate("Trace_Threads", runs, mutators=[mut_loop, mut_ctx, mut_body, mut_same, mut_drop, mut_ping])
