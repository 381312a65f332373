"""C34: template responses made and sent by concurrent requests, with contexts the application keeps and changes."""

from __future__ import annotations

import os
import shutil
import tempfile
import warnings
from pathlib import Path

import anyio
import asgi
import core
import sched

SEP = "\x1e"
KEYS = ["a", "b", "c"]
BODY = SEP.join(["", *("{{ %s }}" % k for k in KEYS), "{{ request.scope['marker'] }}", "{{ url_for('item', name=request.scope['marker'], context='z') }}"])


def execute(scn):
    warnings.simplefilter("ignore")
    import jinja2
    from starlette.applications import Starlette
    from starlette.background import BackgroundTask, BackgroundTasks
    from starlette.middleware import Middleware
    from starlette.middleware.base import BaseHTTPMiddleware
    from starlette.requests import Request
    from starlette.routing import Mount, Route
    from starlette.templating import Jinja2Templates

    cfg, st, ev = scn["cfg"], scn["style"], []
    tmp = tempfile.mkdtemp(prefix="verif-c34-")
    requests = {}

    def enc(ctx):
        return sorted([k, v.scope["marker"] if isinstance(v, Request) else v] for k, v in ctx.items())

    ctxs = []
    cur = {}
    bgs = {}

    def processor(ps):
        def f(request):
            return {p["k"]: p["v"] + (request.scope["marker"] if p["own"] else "") for p in ps}

        return f

    def setup():
        kw = {"context_processors": [processor(ps) for ps in cfg["procs"]]} if cfg["procs"] or st % 2 else {}
        if scn["env"] == "dir":
            dirs = []
            for i, names in enumerate(scn["dirs"]):
                d = os.path.join(tmp, f"d{i}")
                os.mkdir(d)
                dirs.append(d if st % 2 else Path(d))
                for name, label in names:
                    Path(d, name).write_text(label + BODY, encoding="utf-8")
            if not cfg["escape"]:
                kw["autoescape"] = False
            return Jinja2Templates(dirs[0] if len(dirs) == 1 else dirs if st % 3 else tuple(dirs), **kw)
        env = jinja2.Environment(loader=jinja2.DictLoader({n: lab + BODY for n, lab in cfg["known"]}), autoescape=cfg["escape"])
        if cfg["urlfor"]:
            env.globals["url_for"] = lambda *a, **kw: cfg["urlfor"]
        if scn["env"] == "twice":
            Jinja2Templates(env=env, context_processors=[lambda request: {"a": "other"}])
        return Jinja2Templates(env=env, **kw)

    def call(t, request, o):
        kw = {}
        if o["status"]:
            kw["status_code"] = o["status"]
        if o["media"]:
            kw["media_type"] = o["media"]
        if o["hdrs"] or o["how"] % 2:
            kw["headers"] = dict(map(tuple, o["hdrs"]))

        async def note(r):
            bgs[r] = bgs.get(r, 0) + 1

        task = BackgroundTask(note, o["r"])
        kw["background"] = task if o["how"] % 3 else BackgroundTasks([task])
        ctx = None if o["c"] == 0 else ctxs[o["c"] - 1]
        how = o["how"]
        order = ["status_code", "headers", "media_type", "background"]
        full = [o["status"] or 200, dict(map(tuple, o["hdrs"])) or None, o["media"] or None, kw["background"]]
        if o["old"]:
            if how % 4 == 0:
                return t.TemplateResponse(name=o["name"], context=ctx, **kw)
            if how % 4 == 1:
                return t.TemplateResponse(o["name"], context=ctx, **kw)
            if how % 4 == 2:
                return t.TemplateResponse(o["name"], ctx, **kw)
            n = how // 4 % 5
            return t.TemplateResponse(o["name"], ctx, *full[:n], **dict(list(zip(order, full))[n:]))
        cs = {} if ctx is None and how // 4 % 2 else {"context": ctx}
        if how % 4 == 0:
            return t.TemplateResponse(request=request, name=o["name"], **cs, **kw)
        if how % 4 == 1:
            return t.TemplateResponse(request, name=o["name"], **cs, **kw)
        if how % 4 == 2:
            return t.TemplateResponse(request, o["name"], **cs, **kw)
        n = how // 8 % 5
        return t.TemplateResponse(request, o["name"], ctx, *full[:n], **dict(list(zip(order, full))[n:]))

    async def main():
        t = setup()

        async def page(request):
            p = cur[request.scope["marker"]]
            requests[request.scope["marker"]] = request
            while True:
                await p["make"].wait()
                o = p["op"]
                err = ""
                resp = None
                try:
                    resp = call(t, request, o)
                except jinja2.TemplateNotFound:
                    err = "missing"
                except ValueError as e:
                    err = "value" if "request" in str(e) else "odd " + repr(e)
                except Exception as e:
                    err = "failed " + repr(e)
                p["err"] = err
                p["made"].release()
                if resp is not None:
                    await p["send"].wait()
                    return resp

        class Pass(BaseHTTPMiddleware):
            async def dispatch(self, request, call_next):
                return await call_next(request)

        async def item(request):
            raise AssertionError

        routes = [Route("/page", page), Route("/items/{name}/{context}", item, name="item")]
        if scn["mounted"]:
            # url_for of the outermost application: names as they are there
            routes = [Mount("/sub", routes=routes[:1]), routes[1]]
        app = Starlette(routes=routes, middleware=[Middleware(Pass)] if scn["mw"] else [])
        ctxs.extend(dict(map(tuple, c)) for c in cfg["ctxs"])
        for c in ctxs:
            c.pop("request", None)

        async def serve(r):
            p = cur[r]
            try:
                p["sent"], p["exc"] = await asgi.call(app, p["scope"])
            finally:
                p["over"].set()

        async with anyio.create_task_group() as tg:
            for r, base in cfg["bases"]:
                scheme, _, rest = base.partition("://")
                host, _, root = rest.partition("/")
                root = "/" + root if root else ""
                scope = asgi.http_scope(path=root + ("/sub/page" if scn["mounted"] else "/page"), root_path=root, scheme=scheme, headers=[("host", host)], marker=r)
                if scn["debug"][r]:
                    scope["extensions"] = {"http.response.debug": {}}
                elif st % 3 == 0:
                    scope["extensions"] = {}
                cur[r] = {"make": sched.Gate(), "made": sched.Gate(), "send": sched.Gate(), "over": anyio.Event(), "scope": scope, "ok": False}
                tg.start_soon(serve, r)
            await sched.settle()
            for i, c in enumerate(cfg["ctxs"]):
                for k, v in c:
                    if k == "request":
                        ctxs[i][k] = requests[v]
            for o in scn["ops"]:
                if o["t"] == "edit":
                    ctxs[o["c"] - 1][o["k"]] = requests[o["v"]] if o["k"] == "request" else o["v"]
                    ev.append(dict(o))
                elif o["t"] == "make":
                    p = cur[o["r"]]
                    if p["ok"]:
                        continue
                    p["op"] = o
                    p["make"].release()
                    await p["made"].wait()
                    p["ok"] = p["err"] == ""
                    e = {k: o[k] for k in ("t", "r", "name", "c", "old", "status", "media", "hdrs")}
                    ev.append({**e, "err": p["err"], "ctxafter": enc(ctxs[o["c"] - 1]) if o["c"] else []})
                else:
                    r = o["r"]
                    p = cur[r]
                    if not p["ok"] or p["over"].is_set():
                        continue
                    p["send"].release()
                    await p["over"].wait()
                    sent = p["sent"]
                    types = [m["type"].rsplit(".", 1)[-1] for m in sent]
                    if scn["mw"]:  # which may add an empty last message of its own
                        while len(types) > 1 and types[-2:] == ["body", "body"] and not sent[-1].get("body"):
                            types.pop()
                            sent = sent[:-1]
                    dbg = next((m["info"] for m in sent if m["type"].endswith("debug")), None)
                    start = next((m for m in sent if m["type"].endswith("start")), {"status": 0, "headers": []})
                    body = b"".join(m.get("body", b"") for m in sent).decode()
                    parts = body.split(SEP) + [""] * 6
                    given = {k.lower() for k, _ in p["op"]["hdrs"]}
                    hs = [(k.decode("latin-1"), v.decode("latin-1")) for k, v in start["headers"]]
                    ev.append({
                        "t": "send", "r": r, "debug": scn["debug"][r], "types": types + ([] if p["exc"] is None else [repr(p["exc"])]),
                        "info": {"name": dbg["template"].name, "ctx": enc(dbg["context"])} if dbg else {"name": "", "ctx": []},
                        "label": parts[0], "shown": [[k, parts[1 + i]] for i, k in enumerate(KEYS)], "req": parts[4], "link": parts[5],
                        "status": start["status"], "ctype": dict(hs).get("content-type", ""),
                        "hdrs": [[n, v] for n, _ in p["op"]["hdrs"] for k, v in hs if k == n.lower()] if given else [],
                        "clen": [v for k, v in hs if k == "content-length"] == [str(len(body.encode()))], "bg": bgs.get(r, 0),
                    })  # fmt: skip
            tg.cancel_scope.cancel()

    try:
        sched.run(main, backend=scn["backend"])
    finally:
        shutil.rmtree(tmp)
    return {"cfg": cfg, "ev": ev}


VALUES = ["", "x", "y", "<b>", "a&b", "it's", '"q"', "é", "&lt;", "{{ a }}", "0"]
HDRS = [["X-One", "1"], ["x-two", "a b"], ["Set-Cookie", "k=v"], ["Cache-Control", "no-store"]]


def dress(cfg, ops, rng):
    """what the specification leaves open: how calls are written, when responses are sent, and so on"""
    labels = [n for n, _ in cfg["known"]]
    env = rng.choice(["dir", "dir", "dict", "twice"])
    dirs = [[[n, lab] for n, lab in cfg["known"]]]
    if env == "dir" and rng.random() < 0.5:
        # the same templates over two or three directories: the first one counts
        dirs = [[] for _ in range(rng.choice([2, 3]))]
        for n, lab in cfg["known"]:
            i = rng.randrange(len(dirs))
            dirs[i].append([n, lab])
            for d in dirs[i + 1 :]:
                if rng.random() < 0.5:
                    d.append([n, "shadowed"])
    del labels
    cfg = {**cfg, "escape": rng.random() < 0.8, "urlfor": "OWN" if env != "dir" and rng.random() < 0.3 else ""}
    out = []
    for o in ops:
        if o["t"] == "make":
            o = {**o, "how": rng.randrange(240), "status": rng.choice([0, 0, 201, 404, 500]), "media": rng.choice(["", "", "text/plain", "application/xml"]),
                 "hdrs": rng.sample(HDRS, rng.choice([0, 0, 1, 2]))}  # fmt: skip
            out.append(o)
            if not any(x["t"] == "send" for x in ops):
                out.append({"t": "send", "r": o["r"]})
        else:
            out.append(o)
    # sends move later at will
    for i in range(len(out) - 2, -1, -1):
        if out[i]["t"] == "send" and rng.random() < 0.7:
            o = out.pop(i)
            out.insert(rng.randrange(i, len(out) + 1), o)
    return {"cfg": cfg, "ops": out, "env": env, "dirs": dirs, "style": rng.randrange(24), "mounted": rng.random() < 0.3, "mw": rng.random() < 0.25,
            "debug": {r: rng.random() < 0.6 for r, _ in cfg["bases"]}, "backend": rng.choice(["asyncio", "trio"])}  # fmt: skip


BASES = ["http://h1.example", "https://h2.example:8443", "http://h3.example/root", "http://h4.example/a/b"]


def from_model(g, rng):
    cfg = {**g["cfg"], "bases": [["r1", rng.choice(BASES)], ["r2", rng.choice(BASES)]], "known": [["one", rng.choice(["1", "uno"])]]}
    ren = {k: rng.choice(VALUES) for k in "xyp<q&"}
    cfg["ctxs"] = [[[k, v if k == "request" else ren[v]] for k, v in c] for c in cfg["ctxs"]]
    cfg["procs"] = [[{**p, "v": ren[p["v"]]} for p in ps] for ps in cfg["procs"]]
    ops = [{**o, "v": ren[o["v"]]} if o["t"] == "edit" and o["k"] != "request" else o for o in g["ops"]]
    return dress(cfg, ops, rng)


def rnd(rng):
    rs = [f"r{i}" for i in range(1, rng.choice([1, 2, 3, 5]) + 1)]
    nctx = rng.choice([0, 1, 1, 2])
    olds = [rng.random() < 0.35 for _ in range(nctx)]
    def pairs(): return [[k, rng.choice(VALUES)] for k in rng.sample(KEYS, rng.randrange(4))]  # fmt: skip
    ctxs = [pairs() + ([["request", rng.choice(rs)]] if o and rng.random() < 0.5 else []) for o in olds]
    procs = [[{"k": k, "v": v, "own": rng.random() < 0.5} for k, v in pairs()] for _ in range(rng.choice([0, 0, 1, 2, 3]))]
    known = [[n, rng.choice(["L", "M", "<"]) + n[0]] for n in rng.sample(["one.html", "two.html", "deep.txt"], rng.choice([1, 2, 3]))]
    ops = []
    todo = list(rs)
    rng.shuffle(todo)
    for r in todo:
        for _ in range(rng.choice([0, 0, 1, 2])):
            if nctx:
                c = rng.randrange(nctx)
                ops.append({"t": "edit", "c": c + 1, "k": rng.choice(KEYS), "v": rng.choice(VALUES)})
        for _ in range(rng.choice([1, 1, 1, 2])):
            c = rng.randrange(nctx + 1)
            old = bool(c) and olds[c - 1]
            if old and rng.random() < 0.7:
                ops.append({"t": "edit", "c": c, "k": "request", "v": r})
            ops.append({"t": "make", "r": r, "c": c, "old": old, "name": rng.choice([n for n, _ in known] * 3 + ["none.html"])})
    return dress({"procs": procs, "ctxs": ctxs, "known": known, "bases": [[r, rng.choice(BASES)] for r in rs]}, ops, rng)


def pick(t, rng, kind, ok=lambda e: True):
    ks = [e for e in t["ev"] if e["t"] == kind and ok(e)]
    return rng.choice(ks) if ks else None


def mut_link(t, rng):
    e = pick(t, rng, "send")
    if e:
        e["link"] += "/"
        return t


def mut_shown(t, rng):
    e = pick(t, rng, "send")
    if e:
        e["shown"][1][1] += "x"
        return t


def mut_ctx(t, rng):
    e = pick(t, rng, "make", lambda e: e["c"])
    if e:
        e["ctxafter"] = e["ctxafter"] + [["new", "x"]]
        return t


def mut_debug(t, rng):
    e = pick(t, rng, "send", lambda e: e["debug"])
    if e:
        e["types"] = ["start", "debug", "body"]
        return t


def mut_err(t, rng):
    e = pick(t, rng, "make", lambda e: e["err"] == "missing")
    if e:
        e["err"] = ""
        return t


def run(c):
    c.model("MC_Template", min_states=200000)
    gen = c.behaviours("MC_Template", "MC_Template_gen.cfg")
    scns = [from_model(g, c.rng) for g in (gen if c.thorough else c.rng.sample(gen, 2000))]
    scns += [rnd(c.rng) for _ in range(c.n(2500, 40000))]
    runs = list(zip(scns, core.run_pool(execute, scns)))
    c.validate("Trace_Template", runs, mutators=[mut_link, mut_shown, mut_ctx, mut_debug, mut_err])
