"""C20: CORS configurations and requests, several requests to each application."""

from __future__ import annotations

import re

import asgi
import core
import sched


def source(rx):
    return "|".join("".join({"lit": re.escape(t), "any": ".*", "word": "[a-z0-9-]+"}[k] for k, t in alt) for alt in rx)


def lower(headers):
    return [[k.decode("latin-1").lower(), v.decode("latin-1")] for k, v in headers]


def execute(scn):
    from starlette.applications import Starlette
    from starlette.middleware import Middleware
    from starlette.middleware.cors import CORSMiddleware
    from starlette.responses import PlainTextResponse, Response, StreamingResponse
    from starlette.routing import Route

    ev = []
    cfg = scn["cfg"]
    st = scn["style"]
    kw = {}
    seq = tuple if st % 2 else list
    for name, key in (("allow_origins", "origins"), ("allow_methods", "methods"), ("allow_headers", "headers"), ("expose_headers", "expose")):
        if cfg[key] or st % 3 or (key == "methods"):
            kw[name] = seq(cfg[key])
    if cfg["regex"]:
        kw["allow_origin_regex"] = source(cfg["regex"])
    if cfg["cred"] or st % 3:
        kw["allow_credentials"] = cfg["cred"]
    if cfg["maxage"] != "600":
        kw["max_age"] = int(cfg["maxage"])
    hs = [(k.encode(), v.encode()) for k, v in scn["hdrs"]]
    shared = {"type": "http.response.start", "status": scn["status"], "headers": list(hs)}
    bare = {"type": "http.response.start", "status": scn["status"]}
    body = b"the body"
    response = PlainTextResponse(body, status_code=scn["status"], headers=dict(scn["hdrs"]))
    cur = {}

    async def inner(scope, receive, send):
        cur["ran"] = True

        async def log(m):
            if m["type"] == "http.response.start":
                cur["app"] = {"status": m["status"], "hdrs": lower(m.get("headers", []))}
            elif m["type"] == "http.response.body":
                cur["appbody"] += m.get("body", b"")
            await send(m)

        kind = scn["kind"]
        if kind == "shared":
            await log(shared)
            await log({"type": "http.response.body", "body": body})
        elif kind == "bare":
            await log(bare)
            await log({"type": "http.response.body", "body": body})
        elif kind == "response":
            await response(scope, receive, log)
        elif kind == "stream":
            await StreamingResponse(iter([b"a", b"b"]), status_code=scn["status"], headers=dict(scn["hdrs"]))(scope, receive, log)
        else:
            await log({"type": "http.response.start", "status": scn["status"], "headers": tuple(hs) if st % 2 else list(hs)})
            await log({"type": "http.response.body", "body": b"the ", "more_body": True})
            await log({"type": "http.response.body", "body": b"body"})

    async def main():
        if scn["wrap"] == "starlette":
            app = Starlette(middleware=[Middleware(CORSMiddleware, **kw)])
            app.mount("/", inner)
        elif scn["wrap"] == "route":
            async def endpoint(request):
                return Response()
            route = Route("/", endpoint, methods=["GET"], middleware=[Middleware(CORSMiddleware, **kw)])
            route.app = CORSMiddleware(inner, **kw)
            app = CORSMiddleware(inner, **kw)
        else:
            app = CORSMiddleware(inner, **kw)
        for rq in scn["reqs"]:
            cur.update(ran=False, app={"status": 0, "hdrs": []}, appbody=b"")
            scope = asgi.http_scope(rq["method"], "/", b"", [(k, v) for k, v in rq["hdrs"]] + [("host", "h")])
            sent, exc = await asgi.call(app, scope)
            start = asgi.start_of(sent) or {"status": 0, "headers": []}
            out = asgi.body_of(sent)
            text = re.findall("[a-z]+", out.decode("latin-1").lower())
            ev.append({"t": "req", "method": rq["method"], "hdrs": [[k.lower(), v] for k, v in rq["hdrs"]], "ran": cur["ran"], "app": cur["app"],
                       "sent": {"status": start["status"], "hdrs": lower(start.get("headers", []))}, "same": cur["ran"] and exc is None and out == cur["appbody"],
                       "text": sorted({"header": "headers", "origins": "origin", "methods": "method"}.get(w, w) for w in set(text) & {"origin", "origins", "method", "methods", "header", "headers"})})  # fmt: skip

    sched.run(main, backend=scn["backend"])
    return {"cfg": cfg, "ev": ev}


ORIGINS = ["https://a", "https://A", "https://a.example", "https://a.example:8000", "http://a.example", "https://b.t", "https://b-1.t", "https://b.t.evil", "https://.t", "null", "http://l", "http://ll",
           "https://b.t\n", "xhttps://b.t", "https://b.tt", "https://x.a.example", "https://a.example.evil", "https://a.example/", "", "https://sub.b.t", "*", "https://bxt", "https://B.t"]  # fmt: skip
PATS = [
    [[["lit", "https://"], ["word", ""], ["lit", ".t"]], [["lit", "http://l"]]],
    [[["lit", "https://"], ["any", ""], ["lit", ".example"]]],
    [[["lit", "https://"], ["any", ""]]],
    [[["lit", "https://a"]], [["lit", "null"]]],
    [[["any", ""]]],
    [[["lit", "http"], ["any", ""], ["lit", "a"], ["word", ""], ["lit", ".t"]], [["lit", "https://a.example"], ["any", ""]]],
]
METHODS = ["GET", "PUT", "POST", "DELETE", "PATCH", "HEAD", "OPTIONS", "PROPFIND", "get", "put", "Put", "X"]
NAMES = ["X-A", "x-b", "X-Long-Name", "Authorization", "accept", "Content-Type"]
ASKED = ["x-a", "X-A", "X-B, x-a", "accept", "Accept-Language", "content-type,x-a", "authorization", "x-long-name ,  x-A", "x-ab", "x-", "content-language, accept", "X-A,X-B,X-Long-Name", "x-a,, x-b", "", "x-long-nam", " x-a "]  # fmt: skip
HDRS = [[], [["x-own", "1"]], [["vary", "Cookie"]], [["vary", "Accept-Encoding, Origin"]], [["content-type", "text/x"], ["vary", "origin"]], [["vary", "*"]], [["set-cookie", "a=1; Path=/"], ["etag", '"1"']],
        [["access", "1"], ["x-access-control", "2"]], [["vary", "X-Origin"]]]  # fmt: skip


def request(rng):
    hdrs = []
    if rng.random() < 0.92:
        hdrs.append(["origin", rng.choice(ORIGINS)])
    method = rng.choice(["GET", "GET", "POST", "OPTIONS", "OPTIONS", "OPTIONS", "HEAD", "PUT"])
    if rng.random() < (0.85 if method == "OPTIONS" else 0.1):
        hdrs.append(["access-control-request-method", rng.choice(METHODS)])
        for _ in range(rng.choice([0, 1, 1, 1, 2])):
            hdrs.append(["access-control-request-headers", rng.choice(ASKED)])
    if rng.random() < 0.3:
        hdrs.append(["cookie", rng.choice(["a=1", "", "s=x; t=y"])])
    if rng.random() < 0.3:
        hdrs.append(["vary", "Origin"])
    rng.shuffle(hdrs)
    return {"method": method, "hdrs": hdrs}


def dress(s, rng):
    s.update(style=rng.randrange(60), status=rng.choice([200, 200, 404, 500, 201]), hdrs=rng.choice(HDRS), kind=rng.choice(["raw", "shared", "bare", "response", "stream"]),
             wrap=rng.choice(["direct", "direct", "starlette"]), backend=rng.choice(["asyncio", "trio"]))  # fmt: skip
    if s["kind"] in ("bare",):
        s["hdrs"] = []
    return s


def from_model(group, rng):
    rs = [g["req"] for g in group]
    rng.shuffle(rs)
    return dress({"cfg": group[0]["cfg"], "reqs": rs}, rng)


def rnd(rng):
    c = {"origins": rng.sample(["https://a", "https://a.example", "null", "https://A", "http://l", "https://b.t"], rng.randrange(4)), "regex": rng.choice([[], [], *PATS]),
         "methods": rng.choice([["GET"], rng.sample(METHODS, 3), rng.sample(METHODS, 2), ["*"], ["GET", "*"], []]), "headers": rng.choice([[], rng.sample(NAMES, 2), rng.sample(NAMES, 1), ["*"], ["X-A", "*"]]),
         "cred": rng.random() < 0.5, "expose": rng.choice([[], ["X-E"], ["X-E", "ETag"]]), "maxage": rng.choice(["600", "0", "86400", "1"])}  # fmt: skip
    if rng.random() < 0.3:
        c["origins"].insert(rng.randrange(len(c["origins"]) + 1), "*")
    return dress({"cfg": c, "reqs": [request(rng) for _ in range(rng.choice([1, 2, 4, 6]))]}, rng)


ACO = "access-control-allow-origin"


def is_simple(e):
    return e["ran"] and any(k == "origin" for k, v in e["hdrs"])


def mut_leak(t, rng):
    for e in t["ev"]:
        if not any(h[0] == ACO for h in e["sent"]["hdrs"]) and any(k == "origin" for k, v in e["hdrs"]):
            e["sent"]["hdrs"].append([ACO, next(v for k, v in e["hdrs"] if k == "origin")])
            return t


def mut_vary(t, rng):
    for e in t["ev"]:
        a = [h[1] for h in e["sent"]["hdrs"] if h[0] == ACO]
        if a and a != ["*"]:
            e["sent"]["hdrs"] = [h for h in e["sent"]["hdrs"] if h[0] != "vary"]
            return t


def mut_cred(t, rng):
    if not t["cfg"]["cred"] and t["ev"]:
        for e in t["ev"]:
            if any(k == "origin" for k, v in e["hdrs"]):
                e["sent"]["hdrs"].append(["access-control-allow-credentials", "true"])
                return t


def mut_status(t, rng):
    for e in t["ev"]:
        if not e["ran"] and ",," not in str(e["hdrs"]) and "''" not in str(e["hdrs"]):
            e["sent"]["status"] = 600 - e["sent"]["status"]
            return t


def mut_reach(t, rng):
    for e in t["ev"]:
        if not e["ran"]:
            e["ran"] = True
            return t


def mut_touch(t, rng):
    for e in t["ev"]:
        if e["ran"]:
            e["sent"]["hdrs"] = [["x-z", "1"]] + e["sent"]["hdrs"]
            return t


def run(c):
    c.model("MC_Cors", "MC_Cors_big.cfg" if c.thorough else None, min_states=10000)
    gen = c.behaviours("MC_Cors", "MC_Cors_gen.cfg")
    groups = {}
    for g in gen:
        groups.setdefault(str(sorted(g["cfg"].items())), []).append(g)
    scns = []
    for g in groups.values():
        c.rng.shuffle(g)
        scns += [from_model(g[i : i + 6], c.rng) for i in range(0, len(g), 6)]
    scns += [rnd(c.rng) for _ in range(c.n(1500, 60000))]
    runs = list(zip(scns, core.run_pool(execute, scns)))
    c.validate("Trace_Cors", runs, mutators=[mut_leak, mut_vary, mut_cred, mut_status, mut_reach, mut_touch])
