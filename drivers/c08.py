"""C08: the methods endpoints answer."""

from __future__ import annotations

import functools
import threading

import asgi
import core
import sched

METHODS = ["GET", "HEAD", "POST", "PUT", "PATCH", "DELETE", "OPTIONS", "TRACE", "CONNECT", "PROPFIND", "M-SEARCH", "SEND", "RECEIVE", "DISPATCH", "SCOPE",
           "METHOD_NOT_ALLOWED", "_ALLOWED_METHODS", "__INIT__", "__CLASS__", "__DICT__", "__AWAIT__", "BREW", "*"]  # fmt: skip
LOWER = ["get", "head", "post", "put", "patch", "delete", "options", "trace", "propfind", "brew"]


def execute(scn):
    from starlette.applications import Starlette
    from starlette.endpoints import HTTPEndpoint
    from starlette.responses import PlainTextResponse, Response, StreamingResponse
    from starlette.routing import Mount, Route, Router

    c = scn["cfg"]
    runs = []
    loop_thread = [0]

    class Own:
        # any ASGI application is a response
        def __init__(self, body, status):
            self.body, self.status = body, status

        async def __call__(self, scope, receive, send):
            await send({"type": "http.response.start", "status": self.status, "headers": []})
            await send({"type": "http.response.body", "body": self.body.encode()})

    def answer(h, request):
        n = len(runs) + 1
        body = f"{h} {request.method} {scn['salt']}.{n}"
        status = [200, 201, 404, 500, 418][(scn["salt"] + n) % 5]
        runs.append({"h": h, "m": request.method, "thread": threading.get_ident() != loop_thread[0], "status": status, "body": body})
        kind = (scn["salt"] + len(h)) % 4
        if kind == 0:
            return Response(body, status)
        if kind == 1:
            return StreamingResponse(iter([body[:3], body[3:]]), status)
        if kind == 2:
            return Own(body, status)
        return PlainTextResponse(body, status)

    def callable_for(h, bound):
        """A callable taking (self,) request: plain or async, in one of several shapes."""
        sync = h in c["sync"]
        shape = (scn["shape"] + sum(map(ord, h))) % 6

        if bound:  # to be a method of a class
            if sync:
                def f(self, request):
                    return answer(h, request)
            else:
                async def f(self, request):
                    return answer(h, request)
            if shape == 1:
                g = f

                if sync:
                    @functools.wraps(g)
                    def f(*a, **k):
                        return g(*a, **k)
                else:
                    @functools.wraps(g)
                    async def f(*a, **k):
                        return await g(*a, **k)
            elif shape == 2:
                f0 = f
                if sync:
                    @staticmethod
                    def f(request):
                        return f0(None, request)
                else:
                    @staticmethod
                    async def f(request):
                        return await f0(None, request)
            elif shape == 3:
                f = functools.partial(f, None)  # not a descriptor: called with the request alone
            elif shape == 4:
                f0 = f

                class Obj:
                    if sync:
                        def __call__(self, request):
                            return f0(None, request)
                    else:
                        async def __call__(self, request):
                            return await f0(None, request)

                f = Obj()
            elif shape == 5:
                f0 = f
                if sync:
                    @classmethod
                    def f(cls, request):
                        return f0(None, request)
                else:
                    @classmethod
                    async def f(cls, request):
                        return await f0(None, request)
            return f
        if sync:
            def f(request, tag=None):
                return answer(h, request)
        else:
            async def f(request, tag=None):
                return answer(h, request)
        if shape == 1:
            f = functools.partial(f, tag=1)
        elif shape == 2:
            f = functools.partial(functools.partial(f), tag=2)
        elif shape == 3:
            f0 = f

            class K:
                if sync:
                    def meth(self, request):
                        return f0(request)
                else:
                    async def meth(self, request):
                        return await f0(request)

            f = K().meth
            if scn["salt"] % 2:
                f = functools.partial(f)
        elif shape == 4:
            f0 = f
            if sync:
                f = lambda request: f0(request)  # noqa: E731
            else:
                @functools.wraps(f0)
                async def f(*a, **k):
                    return await f0(*a, **k)
        return f

    declared = [m if (scn["salt"] + i) % 3 else m.lower() for i, m in enumerate(c["declared"])] if c["given"] else None
    if declared is not None:
        declared = [declared, tuple(declared), set(declared), iter(declared)][scn["shape"] % 4] if scn["how"] == "Route" else declared

    if c["style"] == "function":
        endpoint = callable_for("fn", False)
    else:
        ns = {h: callable_for(h, True) for h in c["defined"]}
        base = {}
        if scn["inherit"]:
            # some handlers are inherited, and those the class does not want are switched off
            for k in list(ns)[::2]:
                base[k] = ns.pop(k)
            for k in c["none"]:
                base[k] = callable_for(k, True)
        for k in c["none"]:
            ns[k] = None
        Base = type("Base", (HTTPEndpoint,), base)
        endpoint = type("Endpoint", (Base,), ns)

    where, how = scn["where"], scn["how"]
    path = "/x"
    if where == "bare":
        app = endpoint
    else:
        if how == "Route":
            r = [Route("/x", endpoint, methods=declared)]
            inner = Router(r) if where in ("router", "mount") else None
            app = inner or Starlette(routes=r, debug=scn["salt"] % 2 == 0)
        else:
            app = inner = Router() if where in ("router", "mount") else Starlette()
            if how == "add":
                (app if where != "app" else app.router if scn["salt"] % 2 else app).add_route("/x", endpoint, methods=declared)
            else:
                import warnings

                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    app.route("/x", methods=declared)(endpoint)
        if where == "mount":
            app = Starlette(routes=[Mount("/m", app=inner)])
            path = "/m/x"
    ev = []

    async def main():
        loop_thread[0] = threading.get_ident()
        for m in scn["ms"]:
            runs.clear()
            sent, exc = await asgi.call(app, asgi.http_scope(m, path))
            start = asgi.start_of(sent) or {"status": 0, "headers": []}
            allow = asgi.header(start, "allow")
            ev.append({"m": m, "status": start["status"], "allow": [x.strip() for x in allow.split(",") if x.strip()] if allow is not None else ["(none)"],
                       "runs": list(runs), "body": asgi.body_of(sent).decode("latin-1"), "exc": "" if exc is None else type(exc).__name__,
                       "starts": sum(x["type"] == "http.response.start" for x in sent),
                       "done": bool(sent) and sent[-1]["type"] == "http.response.body" and not sent[-1].get("more_body")})  # fmt: skip

    sched.run(main, backend=scn["backend"])
    return {"cfg": c, "ev": ev}


def finish(c, rng):
    ms = rng.sample(METHODS, 6) + [rng.choice(["GET", "HEAD"])] + [x.upper() for x in c["defined"][:3]] + c["declared"][:2] + [x.upper() for x in c["none"]]
    if c["style"] == "function" and rng.random() < 0.3:
        ms.append(rng.choice(["get", "Get", "post", "hEAD"]))
    rng.shuffle(ms)
    where = rng.choice(["bare", "app", "router", "mount"]) if c["style"] == "class" else rng.choice(["app", "router", "mount"])
    return {"cfg": c, "ms": ms, "where": where, "how": rng.choice(["Route", "Route", "add", "deco"]), "inherit": rng.random() < 0.5, "shape": rng.randrange(12),
            "salt": rng.randrange(60), "backend": rng.choice(["asyncio", "asyncio", "asyncio", "trio"])}  # fmt: skip


def rnd(rng):
    style = rng.choice(["function", "class", "class", "both"])
    given = style == "both" or (style == "function" and rng.random() < 0.7)
    declared = rng.sample(METHODS[:11] + ["BREW"], rng.randrange(1, 5)) if given else []
    defined, none = [], []
    if style != "function":
        names = rng.sample(LOWER, rng.randrange(0, 6))
        defined = [n for n in names if rng.random() < 0.85]
        none = [n for n in names if n not in defined]
    pool = ["fn"] if style == "function" else defined
    return finish({"style": style, "given": given, "declared": declared, "defined": defined, "none": none, "sync": [n for n in pool if rng.random() < 0.4]}, rng)


def mut_twice(t, rng):
    for e in t["ev"]:
        if e["runs"]:
            e["runs"].append(e["runs"][0])
            return t


def mut_thread(t, rng):
    for e in t["ev"]:
        if e["runs"]:
            e["runs"][0]["thread"] = not e["runs"][0]["thread"]
            return t


def mut_allow(t, rng):
    for e in t["ev"]:
        if e["status"] == 405 and not e["runs"]:
            e["allow"] = e["allow"] + ["LINK"]
            return t


def mut_allow_none(t, rng):
    for e in t["ev"]:
        if e["status"] == 405 and not e["runs"]:
            e["allow"] = ["(none)"]
            return t


def mut_body(t, rng):
    for e in t["ev"]:
        if e["runs"]:
            e["body"] += "x"
            return t


def mut_ran(t, rng):
    for e in t["ev"]:
        if e["status"] == 405 and not e["runs"]:
            e["runs"] = [{"h": "get", "m": e["m"], "thread": False, "status": 405, "body": e["body"]}]
            return t


def run(c):
    cfgs = c.behaviours("MC_Methods")
    scns = [finish(x, c.rng) for x in cfgs] + [rnd(c.rng) for _ in range(c.n(4000, 60000))]
    runs = list(zip(scns, core.run_pool(execute, scns)))
    c.validate("Trace_Methods", runs, mutators=[mut_twice, mut_thread, mut_allow, mut_allow_none, mut_body, mut_ran])
