"""Shared by C21 and C22: requests of every kind through the host and scheme checking middlewares."""

from __future__ import annotations

import copy
import re
from urllib.parse import unquote, unquote_to_bytes

import asgi
import sched

PATHS = ["/", "/a", "/a b/c", "/é/ü", "/a%2Fb", "/x?y", "/x#y", "/a//b", "//evil.com/x", "/a;b=c", "/a/../b", "/:80/", "/%", "/@x", "/a/", "/\"q'", "/a&b=c", "/[x]", "/" + "p" * 60, "/www.a.t", "/http://x.y/"]
QUERIES = ["", "", "a=1", "a=1&b=2", "q=%20%2F+x", "a=b?c=d", "next=http://x.y/z", "é=%C3%A9", "a", "=", "&&", "a=%22", "x=%23y", "a=1;b=2", 'q="x"', "p=:80"]


def split(loc):
    m = re.fullmatch(r"([A-Za-z]+)://([^/?#]*)([^?#]*)(?:\?([^#]*))?(#.*)?", loc, re.S)
    if not m:
        return {"scheme": "?" + loc, "netloc": "", "path": "", "query": ""}
    s, n, p, q, f = m.groups()
    return {"scheme": s, "netloc": n, "path": unquote(p), "query": unquote_to_bytes(q or "").decode("latin-1") + (f or "")}


def execute(scn):
    from starlette.applications import Starlette
    from starlette.middleware import Middleware
    from starlette.middleware.httpsredirect import HTTPSRedirectMiddleware
    from starlette.middleware.trustedhost import TrustedHostMiddleware

    ev = []
    cfg = scn["cfg"]
    cur = {}

    async def inner(scope, receive, send):
        cur["ran"] = True
        # an application around it may add to the scope
        cur["same"] = all(scope.get(k) == v for k, v in cur["scope"].items() if k != "root_path") and (scn["wrap"] or set(scope) == set(cur["scope"]))
        if scope["type"] == "http":
            await send({"type": "http.response.start", "status": 299, "headers": []})
            await send({"type": "http.response.body", "body": b""})
        elif scope["type"] == "websocket":
            await receive()
            await send({"type": "websocket.close", "code": 1000})
        else:
            await receive()
            await send({"type": "lifespan.startup.complete"})

    async def main():
        cls, kw = HTTPSRedirectMiddleware, {}
        if cfg["kind"] == "trusted":
            kw = {"allowed_hosts": tuple(cfg["allowed"]) if scn["style"] % 2 else list(cfg["allowed"])}
            if not cfg["www"] or scn["style"] % 3:
                kw["www_redirect"] = cfg["www"]
            if cfg["allowed"] == ["*"] and scn["style"] % 5 == 0:
                del kw["allowed_hosts"]
            cls = TrustedHostMiddleware
        app = cls(inner, **kw)
        if scn["wrap"]:
            app = Starlette(middleware=[Middleware(cls, **kw)])
            app.mount("/", inner)
        for rq in scn["reqs"]:
            typ = rq["type"]
            hdrs = [("x-first", "1")]
            if rq["host"] != "-":
                hdrs += [("host", rq["host"])]
            if rq["style"] % 3 == 0:
                hdrs += [("x-forwarded-host", "evil.com"), ("origin", "https://a.t")]
            if rq["style"] % 2:
                hdrs.reverse()
            if typ == "lifespan":
                scope = {"type": "lifespan", "asgi": {"version": "3.0"}, "state": {}}
            else:
                mk = asgi.http_scope if typ == "http" else asgi.ws_scope
                scope = mk(path=rq["path"], query=rq["query"], headers=hdrs, scheme=rq["scheme"], server=tuple(rq["server"]))
                if typ == "websocket":
                    scope["extensions"] = {"websocket.http.response": {}}
            cur.update(ran=False, same=True, scope=copy.deepcopy(scope))
            target = app if typ != "lifespan" or not scn["wrap"] else cls(inner, **kw)
            sent, exc = await asgi.call(target, scope)
            start = next((m for m in sent if m["type"] in ("http.response.start", "websocket.http.response.start")), {"status": 0, "headers": []})
            loc = asgi.header(start, "location")
            host = rq["host"]
            if host == "-" and cfg["kind"] == "https":
                h, p = rq["server"]
                host = h if p == {"http": 80, "https": 443, "ws": 80, "wss": 443}[rq["scheme"]] else f"{h}:{p}"
            ev.append({"t": "req", "type": typ, "scheme": rq["scheme"], "host": host, "path": rq["path"], "query": unquote_to_bytes(rq["query"]).decode("latin-1"),
                       "ran": cur["ran"], "same": cur["same"], "status": start["status"], "to": split(loc) if loc is not None else {"scheme": "", "netloc": "", "path": "", "query": ""}})  # fmt: skip

    sched.run(main, backend=scn["backend"])
    return {"cfg": cfg, "ev": ev}


def req(rng, host, **kw):
    typ = rng.choice(["http"] * 6 + ["websocket"] * 3 + ["lifespan"])
    r = {"type": typ, "host": host, "scheme": rng.choice(["http", "https"]) if typ != "websocket" else rng.choice(["ws", "wss"]), "path": rng.choice(PATHS), "query": rng.choice(QUERIES),
         "style": rng.randrange(6), "server": rng.choice([["srv.example", 80], ["srv.example", 443], ["10.0.0.1", 8000], ["srv", 8443]])}  # fmt: skip
    return {**r, **kw}


def mut_reach(t, rng):
    es = [e for e in t["ev"] if e["ran"]]
    for e in t["ev"]:
        if not e["ran"] and e["status"] == 400:
            e["ran"] = True
            # hosts that differ in case only are left open
            return t if e["host"] == e["host"].lower() and not any("." + e["host"].split(":")[0] == a[1:] for a in t["cfg"]["allowed"]) and not any(a[1:] == e["host"].split(":")[0] for a in t["cfg"]["allowed"]) else None
    if es and t["cfg"]["kind"] == "trusted" and es[0]["host"] == "a.t":
        es[0]["ran"] = False
        es[0]["status"] = 400
        return t


def mut_touch(t, rng):
    for e in t["ev"]:
        if e["ran"]:
            e["same"] = False
            return t


def mut_where(t, rng):
    for e in t["ev"]:
        if e["to"]["scheme"]:
            k = rng.choice(["scheme", "netloc", "path", "query"])
            e["to"][k] += "x"
            return t


def mut_status(t, rng):
    for e in t["ev"]:
        if not e["ran"] and e["status"] in (307, 400) and e["host"] == e["host"].lower():
            e["status"] = 403
            return t
