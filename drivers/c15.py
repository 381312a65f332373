"""C15: background tasks of every kind of response, alone and inside an application."""

from __future__ import annotations

import functools
import os
import tempfile
import threading

import anyio

import asgi
import core
import sched


class TaskErr(Exception):
    pass


KINDS = ["async", "sync", "asyncpartial", "syncpartial", "asynccallable", "synccallable", "asyncmethod", "syncmethod", "partialcallable"]
RESPONSES = ["plain", "bytes", "json", "html", "redirect", "agen", "sgen", "file", "filehead", "filerange", "fileranges", "file400", "file416", "empty204"]
STREAMS = ("agen", "sgen")


def execute(scn):
    from starlette.applications import Starlette
    from starlette.background import BackgroundTask, BackgroundTasks
    from starlette.middleware import Middleware
    from starlette.middleware.cors import CORSMiddleware
    from starlette.middleware.gzip import GZipMiddleware
    from starlette.middleware.trustedhost import TrustedHostMiddleware
    from starlette.responses import (
        FileResponse, HTMLResponse, JSONResponse, PlainTextResponse, RedirectResponse, Response, StreamingResponse,
    )  # fmt: skip
    from starlette.routing import Mount, Route

    ev = []
    lists = {}
    err = TaskErr("x")
    fd, path = tempfile.mkstemp(prefix="c15-")
    os.write(fd, b"0123456789" * 20)
    os.close(fd)

    async def main():
        loop_thread = threading.get_ident()
        count = [0]

        def body(tid, plain, a, kw):
            k = count[0]
            count[0] += 1
            ev.append({"t": "start", "id": tid, "thread": threading.get_ident() != loop_thread, "plain": plain,
                       "args": repr((a, sorted(kw.items()))), "want": repr(((tid, "x"), [("k", -tid)]))})  # fmt: skip
            adds, ok = scn["scripts"][k] if k < len(scn["scripts"]) else ([], True)
            for g, nid in adds:
                ev.append({"t": "add", "g": g, "id": nid})
                add(lists.setdefault(g, BackgroundTasks()), nid)
            return ok

        def finish(tid, ok):
            ev.append({"t": "end", "id": tid, "ok": ok})
            if not ok:
                raise err

        def function(tid):
            kind = KINDS[(tid * 7 + scn["style"]) % len(KINDS)]
            plain = kind.startswith("sync")

            async def afn(*a, **kw):
                ok = body(tid, False, a, kw)
                await anyio.lowlevel.checkpoint()
                finish(tid, ok)

            def sfn(*a, **kw):
                finish(tid, body(tid, True, a, kw))

            class A:
                async def __call__(self, *a, **kw):
                    await afn(*a, **kw)

                async def m(self, *a, **kw):
                    await afn(*a, **kw)

            class P:
                def __call__(self, *a, **kw):
                    sfn(*a, **kw)

                def m(self, *a, **kw):
                    sfn(*a, **kw)

            if "partial" in kind:
                f = {"asyncpartial": afn, "syncpartial": sfn, "partialcallable": A()}[kind]
                return functools.partial(f, tid), ("x",)
            return {"async": afn, "sync": sfn, "asynccallable": A(), "synccallable": P(), "asyncmethod": A().m, "syncmethod": P().m}[kind], (tid, "x")  # fmt: skip

        def task(tid):
            f, a = function(tid)
            return BackgroundTask(f, *a, k=-tid)

        def add(tasks, tid):
            f, a = function(tid)
            tasks.add_task(f, *a, k=-tid)

        def build(g):
            items = [build(it["id"]) if it["k"] == "g" else task(it["id"]) for it in scn["groups"][g - 1]]
            if scn["style"] % 2 and not any(it["k"] == "g" for it in scn["groups"][g - 1]):
                lists[g] = BackgroundTasks()
                for it in scn["groups"][g - 1]:
                    add(lists[g], it["id"])
            elif scn["style"] % 3 == 0:
                # made from a list (or tuple) which others use, too, and change afterwards
                lists[g] = BackgroundTasks(items)
                add(BackgroundTasks(items), items and scn["groups"][g - 1][0]["id"] or 1)
                items.reverse()
            else:
                lists[g] = BackgroundTasks(tuple(items) if scn["style"] % 5 == 0 else items)
            return lists[g]

        bg = None if scn["none"] else build(1)
        root = scn["groups"][0]
        if bg is not None and scn["single"] and len(root) == 1 and root[0]["k"] == "t" and not any(x[0] for x in scn["scripts"][:1]):
            bg = task(root[0]["id"])
        kind = scn["resp"]

        async def agen():
            yield b"a"
            yield "b"
            if scn["fails"] == "producer":
                ev.append({"t": "broken", "exc": "KeyError"})
                raise KeyError("producer")
            yield b"c"

        def sgen():
            yield b"a"
            if scn["fails"] == "producer":
                ev.append({"t": "broken", "exc": "KeyError"})
                raise KeyError("producer")
            yield "b"

        def make():
            if kind == "agen":
                return StreamingResponse(agen(), background=bg)
            if kind == "sgen":
                return StreamingResponse(sgen(), background=bg)
            if kind.startswith("file"):
                if scn["fails"] == "producer":
                    ev.append({"t": "broken", "exc": "RuntimeError"})
                    return FileResponse(path + "-missing", background=bg)
                return FileResponse(path, background=bg)
            return {
                "plain": lambda: PlainTextResponse("x" * 700, background=bg), "bytes": lambda: Response(b"\x00" * 600, 201, background=bg),
                "json": lambda: JSONResponse({"a": 1}, background=bg), "html": lambda: HTMLResponse("<p>", 404, background=bg),
                "redirect": lambda: RedirectResponse("/x", background=bg), "empty204": lambda: Response(status_code=204, background=bg),
            }[kind]()  # fmt: skip

        headers = []
        if kind == "filerange":
            headers.append(("range", "bytes=1-3"))
        if kind == "fileranges":
            headers.append(("range", "bytes=1-3,7-9"))
        if kind == "file400":
            headers.append(("range", "bytes=x"))
        if kind == "file416":
            headers.append(("range", "bytes=500-"))
        headers.append(("host", "testserver"))
        if scn["style"] % 3 == 0:
            headers += [("accept-encoding", "gzip"), ("origin", "http://o")]
        scope = asgi.http_scope("HEAD" if kind == "filehead" else "GET", "/m/x", headers=headers)
        scope["asgi"]["spec_version"] = "2.4" if scn["style"] % 4 else "2.3"
        old = scope["asgi"]["spec_version"] == "2.3"

        if scn["inapp"] == 0:
            app = make()
        else:
            if scn["inapp"] == 1:
                async def endpoint(request):
                    return make()
            else:
                def endpoint(request):
                    return make()
            mws = [Middleware(GZipMiddleware), Middleware(CORSMiddleware, allow_origins=["*"]), Middleware(TrustedHostMiddleware, allowed_hosts=["*"])]  # fmt: skip
            app = Starlette(routes=[Mount("/m", routes=[Route("/x", endpoint, methods=["GET"])])],
                            middleware=mws[: scn["style"] % 4], debug=bool(scn["style"] & 1))  # fmt: skip

        n = [0]
        gone = anyio.Event()
        lost = ConnectionResetError("lost")

        async def send(m):
            n[0] += 1
            if n[0] == scn["lose"]:
                ev.append({"t": "broken", "exc": "ClientDisconnect" if kind in STREAMS and not old else "ConnectionResetError"})
                raise lost
            if n[0] == scn["leave"] and old and kind in STREAMS:
                ev.append({"t": "told", "final": False})
                ev.append({"t": "gone"})
                gone.set()
                await anyio.sleep_forever()
            final = m["type"].endswith("body") and not m.get("more_body", False)
            if scn["style"] % 5 == 0:
                await anyio.lowlevel.checkpoint()
            ev.append({"t": "told", "final": final})

        async def receive():
            await gone.wait()
            return {"type": "http.disconnect"}

        exc = None
        try:
            await app(scope, receive, send)
        except Exception as e:
            exc = e
        ev.append({"t": "ret", "exc": type(exc).__name__ if exc else "",
                   "same": exc is err if isinstance(exc, TaskErr) else exc is lost if isinstance(exc, ConnectionResetError) else True})  # fmt: skip
        return list(ev)

    try:
        got = sched.run(main, backend=scn["backend"], seed=scn["seed"])
    finally:
        os.unlink(path)
    return {"cfg": {"groups": scn["groups"], "none": scn["none"]}, "ev": got}


def from_model(b):
    broken = any(a["a"] == "broken" for a in b["hist"])
    scripts = []
    added = set()
    for a in b["hist"]:
        if a["a"] == "start":
            scripts.append([[], True])
        elif a["a"] == "add" and scripts:
            scripts[-1][0].append((a["g"], a["id"]))
        elif a["a"] == "end":
            scripts[-1][1] = a["ok"]
        if a["a"] == "add":
            added.add(a["id"])
    if len(added) != sum(len(x[0]) for x in scripts):
        return None  # additions outside a running task
    groups = [[it for it in g if it["id"] not in added or it["k"] == "g"] for g in b["groups"]]
    return {"groups": groups, "scripts": scripts, "none": False, "broken": broken}


def dress(scn, rng):
    broken = scn.pop("broken", rng.random() < 0.15)
    scn.update(resp=rng.choice(RESPONSES), backend=rng.choice(["asyncio", "asyncio", "trio"]), seed=rng.randrange(1000),
               style=rng.randrange(60), inapp=rng.randrange(3), single=rng.random() < 0.3, lose=0, leave=0, fails="")  # fmt: skip
    if broken:
        if rng.random() < 0.5 and scn["resp"] in (*STREAMS, "file", "filehead"):
            scn["fails"] = "producer"
            scn["inapp"] = 0
            if scn["style"] % 4 == 0:
                scn["style"] += 1
        else:
            scn["lose"] = rng.choice([1, 2, 2])
    elif scn["resp"] in STREAMS and rng.random() < 0.3:
        scn["leave"] = rng.choice([1, 2])
        scn["style"] -= scn["style"] % 4
    return scn


def rnd(rng):
    fresh = iter(range(1, 1000))

    def items(depth):
        out = []
        for _ in range(rng.choice([0, 1, 2, 3, 5] if depth == 0 else [0, 1, 2, 3])):
            if depth < 3 and rng.random() < 0.25:
                groups.append(None)
                g = len(groups)
                groups[g - 1] = items(depth + 1)
                out.append({"k": "g", "id": g})
            else:
                out.append({"k": "t", "id": next(fresh)})
        return out

    groups = [None]
    groups[0] = items(0)
    scripts = []
    for _ in range(30):
        adds = [(rng.randrange(1, len(groups) + 1), next(fresh)) for _ in range(rng.choice([0, 0, 0, 0, 1, 2]))]
        scripts.append([adds, rng.random() > 0.06])
    return {"groups": groups, "scripts": scripts, "none": rng.random() < 0.1}


def mut_skip(t, rng):
    ks = [k for k, e in enumerate(t["ev"]) if e["t"] == "start"]
    if ks and t["ev"][-1]["exc"] == "":
        i = t["ev"][ks[-1]]["id"]
        t["ev"] = [e for e in t["ev"] if not (e["t"] in ("start", "end") and e["id"] == i)]
        return t if not any(e["t"] == "add" for e in t["ev"][ks[-1] - 1 :]) else None


def mut_thread(t, rng):
    for e in t["ev"]:
        if e["t"] == "start":
            e["thread"] = not e["thread"]
            return t


def mut_early(t, rng):
    ks = [k for k, e in enumerate(t["ev"]) if e["t"] == "start"]
    fs = [k for k, e in enumerate(t["ev"]) if e["t"] == "told" and e["final"]]
    if ks and fs:
        t["ev"].insert(ks[0] + 2, t["ev"].pop(fs[0]))
        return t


def mut_swallow(t, rng):
    if t["ev"][-1]["exc"]:
        t["ev"][-1]["exc"] = ""
        return t


def mut_swap(t, rng):
    ks = [k for k, e in enumerate(t["ev"]) if e["t"] == "start"]
    if len(ks) > 1 and not any(e["t"] == "add" for e in t["ev"]):
        a, b = t["ev"][ks[0]]["id"], t["ev"][ks[1]]["id"]
        for e in t["ev"]:
            if e.get("id") in (a, b):
                e["id"] = a + b - e["id"]
        return t


def run(c):
    c.model("MC_Background", min_states=20000)
    scns = [x for x in map(from_model, c.behaviours("MC_Background", "MC_Background_gen.cfg")) if x]
    scns = [dress({**s}, c.rng) for s in scns for _ in range(c.n(2, 20))]
    scns += [dress(rnd(c.rng), c.rng) for _ in range(c.n(5000, 60000))]
    runs = list(zip(scns, core.run_pool(execute, scns)))
    c.validate("Trace_Background", runs, mutators=[mut_skip, mut_thread, mut_early, mut_swallow, mut_swap])
