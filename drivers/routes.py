"""Route tables for C04-C06: random generation, construction on starlette, observation."""

from __future__ import annotations

import math
import uuid
import warnings
from decimal import Decimal
from urllib.parse import unquote, urlsplit

import asgi
import sched


def L(v):
    return {"k": "l", "v": v, "c": ""}


def Pm(v, c):
    return {"k": "p", "v": v, "c": c}


PARAMS = {"s1": "str", "s2": "str", "s3": "str", "n1": "int", "n2": "int", "f1": "float", "u1": "uuid", "p1": "path", "path": "path"}
UU = "0123abcd-89ef-4567-89ab-0123456789ab"

RAW = {  # raw text of a parameter in a request path
    "str": ["x", "a-b", "1", "ab.c", "a b", "é", "A", "users", "me", "{n1}"],
    "int": ["0", "7", "12", "007", "123456789012", "x", "-1", "1.0", "٣"],
    "float": ["1", "2.5", "00.10", "12.340", ".5", "1.", "1e3", "0.0", "0.00000095367431640625", "0000000000000000000000000000001.50000000000000000000000"],
    "uuid": [UU, UU.upper(), UU.replace("-", ""), UU[:-1], UU + "0", "0123abcd89ef-4567-89ab-0123456789ab", "zz" + UU[2:]],
    "path": ["", "x", "x/y", "x/", "/x", "users/1", "a b"],
}
VAL = {  # canonical values for reversing
    "str": ["x", "a-b", "1", "ab.c", "A", "{n1}", "{s2}", "{path}", "", "a/b", "users", "a~b"],
    "int": ["0", "7", "12", "123456789012", "-3"],
    "float": ["1.0", "2.5", "10.25", "100.0", "0.5", "-1.5", "nan", "inf",
              # exact in binary, up to the last of the places the convertor writes
              "0.00000095367431640625", "0.000030517578125", "3.0000152587890625", "123456789012.125", "2251799813685248.5"],
    "uuid": [UU, "ffffffff-0000-4000-8000-0000000000ff"],
    "path": ["", "x", "x/y", "x/", "/x", "{s1}", "users/1"],
}


def fmt(pat):
    out = ""
    for t in pat:
        if t["k"] == "l":
            out += t["v"]
        elif t["c"] == "str" and t["v"] != "s2":
            out += "{" + t["v"] + "}"
        else:
            out += "{" + t["v"] + ":" + t["c"] + "}"
    return out


def merge(pat):
    out = []
    for t in pat:
        if t["k"] == "l" and out and out[-1]["k"] == "l":
            out[-1] = L(out[-1]["v"] + t["v"])
        elif not (t["k"] == "l" and t["v"] == ""):
            out.append(dict(t))
    return out


SEGS = ["users", "me", "a", "items", "A", "a.b", "x", "a+b", "(x)", "v1", "users", "a"]


class Gen:
    def __init__(self, rng):
        self.rng = rng
        self.n = 0

    def pid(self, p):
        self.n += 1
        return f"{p}{self.n}"

    def pat(self, mount=False, maxseg=3):
        r = self.rng
        used = set()
        pat = []
        k = r.choice([0, 1, 1, 2, 2, 3]) if not mount else r.choice([0, 1, 1, 1, 2])
        for i in range(min(k, maxseg)):
            pat.append(L("/"))
            q = r.random()
            if q < 0.55:
                pat.append(L(r.choice(SEGS)))
            else:
                names = [n for n in PARAMS if n not in used and (not mount or n != "path")]
                if q < 0.85:
                    names = [n for n in names if n in ("s1", "s2", "n1", "n2", "f1")] or names
                n = r.choice(names)
                used.add(n)
                pat.append(Pm(n, PARAMS[n]))
                if r.random() < 0.15:
                    pat.append(L(r.choice([".json", "-x", "-", "."])))
                    if r.random() < 0.5:
                        m = r.choice([n for n in ("s1", "s2", "n1") if n not in used] or ["zz"])
                        if m != "zz":
                            used.add(m)
                            pat.append(Pm(m, PARAMS[m]))
        if not mount and (not pat or r.random() < 0.2):
            pat.append(L("/"))
        return merge(pat)

    def name(self):
        return [] if self.rng.random() < 0.3 else [self.rng.choice(["a", "b", "c", "d", "a:b", "ab"])]

    def route(self):
        r = self.rng
        any_ = r.random() < 0.12
        ms = r.choice([["GET"], ["GET"], ["GET"], ["POST"], ["GET", "POST"], ["PUT", "DELETE"], ["HEAD"], ["OPTIONS"]])
        i = self.pid("r")
        return {"kind": "route", "pat": self.pat(), "any": any_, "methods": ms, "id": i, "name": self.name() or [i],
                "lower": r.random() < 0.2, "default": r.random() < 0.3}  # fmt: skip

    def ws(self):
        i = self.pid("w")
        return {"kind": "ws", "pat": self.pat(), "id": i, "name": self.name() or [i]}

    def node(self, depth):
        r = self.rng
        q = r.random()
        if depth > 0 and q < 0.35:
            leaf = r.random() < 0.25
            return {"kind": "mount", "pat": self.pat(mount=True), "name": self.name(),
                    "leaf": self.pid("leaf") if leaf else "",
                    "routes": [] if leaf else self.table(depth - 1), "slash": r.random() < 0.8, "dflt": "",
                    **self.how(["routes", "router", "starlette"], leaf), "trail": r.random() < 0.3}  # fmt: skip
        if depth > 0 and q < 0.45:
            p = r.choice([[L("example.org")], [Pm("s1", "str"), L(".example.org")], [L("api."), Pm("s2", "str"), L(".org")], [Pm("n1", "int"), L(".host")], [Pm("s3", "str")]])
            leaf = r.random() < 0.2
            return {"kind": "host", "pat": p, "name": self.name(), "leaf": self.pid("leaf") if leaf else "", "routes": [] if leaf else self.table(depth - 1),
                    "slash": r.random() < 0.8, **self.how(["router", "starlette"], leaf), "port": r.random() < 0.3}  # fmt: skip
        if q < 0.57:
            return self.ws()
        return self.route()

    def table(self, depth):
        return [self.node(depth) for _ in range(self.rng.choice([1, 2, 2, 3, 4]))]

    def root(self, depth=2):
        if self.rng.random() < 0.06:  # a route as an application of its own
            return {"routes": [self.node(depth)], "slash": False, "style": "single", "dflt": "", "adds": 0}
        return {"routes": self.table(depth), "slash": self.rng.random() < 0.85, **self.how(["starlette", "starlette", "router"])}

    def how(self, styles, leaf=False):
        """how the table is put together: in the constructor, or (adds) by the methods or the decorators for it"""
        style = self.rng.choice(styles)
        return {"style": style, "dflt": self.pid("dflt") if style == "router" and not leaf and self.rng.random() < 0.15 else "",
                "adds": self.rng.choice([0, 0, 1, 2]) if style != "routes" else 0}  # fmt: skip

    # -- requests
    def inst(self, pat):
        return "".join(t["v"] if t["k"] == "l" else self.rng.choice(RAW[t["c"]][: 5 if self.rng.random() < 0.8 else None]) for t in pat)

    def chain(self, routes):
        """a random path into the table: (path, host, node)"""
        r = self.rng.choice(routes)
        if r["kind"] in ("route", "ws"):
            return self.inst(r["pat"]), None, r
        if r["kind"] == "mount":
            if r["leaf"]:
                return self.inst(r["pat"]) + self.rng.choice(["/", "/x", "/x/y", ""]), None, r
            p, h, n = self.chain(r["routes"])
            return self.inst(r["pat"]) + p, h, n
        if r["leaf"]:
            return self.rng.choice(["/", "/x", "/x/y"]), self.inst(r["pat"]), r
        p, h, n = self.chain(r["routes"])
        return p, h or self.inst(r["pat"]), n

    def request(self, table):
        r = self.rng
        path, host, node = self.chain(table["routes"])
        q = r.random()
        if q < 0.12:
            path = path.rstrip("/") if path.endswith("/") else path + "/"
        elif q < 0.16:
            path = path + "//"
        elif q < 0.2:
            path = path.swapcase()
        elif q < 0.25 and path:
            k = r.randrange(len(path))
            path = path[:k] + r.choice(["", "x", "/", ".", "-"]) + path[k + r.randrange(2) :]
        elif q < 0.28:
            path += r.choice(["\n", "x", "/\n", "?a", "%2e", "#f"])
        elif q < 0.31:
            path = r.choice(["/", "/a", "/users", "/users/me/"])
        if not path.startswith("/"):
            path = "/" + path
        typ = "http"
        if node["kind"] == "ws":
            typ = "websocket" if r.random() < 0.9 else "http"
        elif r.random() < 0.05:
            typ = "websocket"
        root = r.choice(["", "", "", "/r", "/r/s", "/a"])
        full = root + path if r.random() < 0.9 else path
        if root and r.random() < 0.05:
            full = root
        h = host if host and r.random() < 0.9 else r.choice(["testserver", "example.org", "x.example.org", "api.z.org", "example.orgx"])
        h = h.replace("/", "").replace(" ", "").replace("\n", "") or "h"
        h = "".join(c for c in h if c.isascii())
        if r.random() < 0.3:
            h += ":8080"
        if r.random() < 0.04:
            h = ""  # no Host header at all
        ms = node.get("methods", ["GET"])
        method = r.choice(ms) if r.random() < 0.75 else r.choice(["GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "PATCH", "get"])
        return {"type": typ, "method": method if typ == "http" else "", "path": full, "root": root, "host": h,
                "noroot": r.random() < 0.2, "query": r.choice(["", "", "a=1&b=2", "q=%2F%3F"]), "scheme": ("https" if r.random() < 0.2 else "http") if typ == "http" else "ws"}  # fmt: skip

    # -- names
    def names(self, routes, prefix=""):
        out = []
        for r in routes:
            if r["kind"] in ("route", "ws"):
                out.append((prefix + r["name"][0], [t["v"] for t in r["pat"] if t["k"] == "p"]))
            else:
                own = [t["v"] for t in r["pat"] if t["k"] == "p"]
                if r["name"]:
                    out.append((prefix + r["name"][0], own + ["path"]))
                p = prefix + r["name"][0] + ":" if r["name"] else prefix
                for n, ps in self.names(r["routes"], p):
                    out.append((n, own + [x for x in ps if x not in own]))
        return out

    def reversal(self, table):
        r = self.rng
        names = self.names(table["routes"]) or [("a", [])]
        n, ps = r.choice(names)
        q = r.random()
        if q < 0.06:
            n = r.choice(["a", "b", "zz", n + ":x", "a:b:c", ":" + n])
        ps = list(ps)
        if q > 0.9 and ps:
            ps.remove(r.choice(ps))
        elif q > 0.84:
            extra = r.choice(list(PARAMS))
            if extra not in ps:
                ps.append(extra)
        r.shuffle(ps)
        return {"name": n, "params": [[p, self.val(PARAMS[p])] for p in ps], "noroot": r.random() < 0.3}

    def val(self, c):
        t = self.rng.choice(VAL[c][: 4 if self.rng.random() < 0.6 else None])
        v = [{"str": "str", "path": "str", "int": "int", "float": "float", "uuid": "UUID"}[c], t]
        if c == "int" and self.rng.random() < 0.2:
            v.append("text")  # given as a string
        elif (c == "str" and t.isdecimal() and t.isascii() and t == str(int(t)) or c == "float" and t.endswith(".0")) and self.rng.random() < 0.6:
            v.append("int")  # given as an integer
        return v


def pyval(v):
    if len(v) > 2:
        return v[1] if v[2] == "text" else int(v[1].removesuffix(".0"))
    return {"str": str, "int": int, "float": float, "UUID": uuid.UUID}[v[0]](v[1])


# ------------------------------------------------------------------ building the application


def text(v):
    if isinstance(v, float) and math.isfinite(v):
        s = format(Decimal(repr(v)), "f")
        return s if "." in s else s + ".0"
    return str(v)


def build(table, log, hook=None):
    from starlette.applications import Starlette
    from starlette.exceptions import HTTPException
    from starlette.responses import PlainTextResponse
    from starlette.routing import Host, Mount, Route, Router, WebSocketRoute

    idents = {}
    keep = []

    async def on_http(request, exc):
        """what an exception handler sees of a request no route took"""
        record(request.scope, "")
        return PlainTextResponse(exc.detail, exc.status_code, headers=exc.headers)

    def record(scope, rid):
        ep = scope.get("endpoint")
        log.append({
            "id": rid, "path": scope["path"], "root": scope.get("root_path", ""),
            "approot": scope.get("app_root_path", scope.get("root_path", "")),
            "params": [[k, type(v).__name__, text(v)] for k, v in scope.get("path_params", {}).items()],
            "ep": idents.get(id(ep), "router"),
        })  # fmt: skip
        if hook and rid:
            hook(scope)

    def mk(r, into=None, adds=0):
        """the route, or what it is added by to the application into"""
        kind = r["kind"]

        def made(cls, add, path, thing, **kw):
            if into is None:
                return cls(path, thing, **kw)
            if adds == 2 and add.startswith("add_"):
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    assert getattr(into, add[4:])(path, **kw)(thing) is thing
            else:
                getattr(into, add)(path, thing, **kw)

        if kind == "route":
            rid = r["id"]
            if r["any"]:

                class App:
                    async def __call__(self, scope, receive, send):
                        record(scope, rid)
                        await PlainTextResponse(rid)(scope, receive, send)

                ep = App()
                idents[id(ep)] = rid
                return made(Route, "add_route", fmt(r["pat"]), ep, name=r["name"][0])

            async def endpoint(request):
                record(request.scope, rid)
                return PlainTextResponse(rid)

            idents[id(endpoint)] = rid
            ms = [m.lower() for m in r["methods"]] if r["lower"] else list(r["methods"])
            if ms == ["GET"] and r["default"]:
                ms = None
            return made(Route, "add_route", fmt(r["pat"]), endpoint, methods=ms, name=r["name"][0])
        if kind == "ws":
            rid = r["id"]

            async def wsep(ws):
                record(ws.scope, rid)
                await ws.accept()
                await ws.close()

            idents[id(wsep)] = rid
            return made(WebSocketRoute, "add_websocket_route", fmt(r["pat"]), wsep, name=r["name"][0])
        name = r["name"][0] if r["name"] else None
        if r["leaf"] and kind == "host":
            return made(Host, "host", fmt(r["pat"]) + (":8000" if r["port"] else ""), leaf(r["leaf"]), name=name)
        if r["leaf"]:
            return made(Mount, "mount", fmt(r["pat"]) + ("/" if r["trail"] else ""), leaf(r["leaf"]), name=name)
        if r["style"] == "routes" and r["slash"] and kind == "mount":
            return made(lambda p, rs, name: Mount(p, routes=rs, name=name), "mount", fmt(r["pat"]) + ("/" if r["trail"] else ""),
                        [mk(x) for x in r["routes"]] if into is None else Router([mk(x) for x in r["routes"]]), name=name)  # fmt: skip
        app = table_app(r)
        if kind == "mount":
            return made(Mount, "mount", fmt(r["pat"]) + ("/" if r["trail"] else ""), app, name=name)
        return made(Host, "host", fmt(r["pat"]) + (":8000" if r["port"] else ""), app, name=name)

    def leaf(rid):
        async def leaf(scope, receive, send):
            record(scope, rid)
            if scope["type"] == "http":
                await PlainTextResponse(rid)(scope, receive, send)
            else:
                await send({"type": "websocket.accept"})
                await send({"type": "websocket.close", "code": 1000})

        idents[id(leaf)] = rid
        keep.append(leaf)
        return leaf

    def table_app(t):
        adds = t.get("adds", 0)
        kids = [mk(x) for x in t["routes"]] if not adds else None
        if t["style"] == "single":
            return kids[0]
        if t["style"] == "starlette":
            app = Starlette(routes=kids, exception_handlers={HTTPException: on_http})
            app.router.redirect_slashes = t["slash"]
        else:
            app = Router(kids, redirect_slashes=t["slash"], **({"default": leaf(t["dflt"])} if t.get("dflt") else {}))
        if kids is not None:
            # another application made from the same list, which then gets routes of its own
            other = Router(kids)
            other.mount("", not_mine)
            other.host("{anything:path}", not_mine)
        if adds:
            for x in t["routes"]:
                mk(x, app, adds)
        return app

    async def not_mine(scope, receive, send):
        if scope["type"] == "http":
            await PlainTextResponse("of another application", 599)(scope, receive, send)
        else:
            await send({"type": "websocket.close", "code": 4999})

    app = table_app(table)
    # identities stay those of these objects
    app._keep = idents, keep
    return app


def observe(app, log, q):
    del log[:]
    mk = asgi.http_scope if q["type"] == "http" else asgi.ws_scope
    kw = {"method": q["method"]} if q["type"] == "http" else {}
    scope = mk(path=q["path"], query=q["query"], headers=[("host", q["host"])] if q["host"] else [], root_path=q["root"], scheme=q["scheme"], **kw)
    if not q["root"] and q.get("noroot"):
        del scope["root_path"]
    sent, exc = sched.run(asgi.call, app, scope)
    ran = [x["id"] for x in log if x["id"]]
    out = {"k": "none", "ran": ran, "seen": [x for x in log if not x["id"]]}
    if exc is not None:
        out["k"] = "raised-" + type(exc).__name__
    elif ran:
        out.update(k="app", **{k: v for k, v in log[0].items() if k != "id"})
    elif sent and sent[0]["type"] == "websocket.close":
        out["k"] = "close"
    elif sent and sent[0]["type"] == "http.response.start":
        st = sent[0]["status"]
        out["k"] = str(st)
        if st == 405:
            out["allow"] = sorted(x.strip() for x in (asgi.header(sent[0], "allow") or "").split(","))
        elif st in (301, 302, 303, 307, 308):
            u = urlsplit(asgi.header(sent[0], "location") or "")
            out.update(k="redirect", loc={"path": unquote(u.path) + ("#" + u.fragment if u.fragment else ""),
                                          "query": u.query, "netloc": unquote(u.netloc), "scheme": u.scheme})  # fmt: skip
    return out


def reverse(app, q, req):
    """app.url_path_for and the absolute form in the context of request q"""
    from starlette.requests import HTTPConnection
    from starlette.routing import NoMatchFound

    ps = {k: pyval(v) for k, v in req["params"]}
    try:
        p = app.url_path_for(req["name"], **ps)
    except NoMatchFound:
        return {"k": "nomatch"}
    except Exception as exc:
        return {"k": "error", "what": type(exc).__name__}
    mk = asgi.http_scope if q["type"] == "http" else asgi.ws_scope
    scope = mk(path=q["path"], headers=[("host", q["host"])] if q["host"] else [], root_path=q["root"], scheme=q["scheme"])
    scope["router"] = app
    if not q["root"] and req.get("noroot"):
        del scope["root_path"]
    u = urlsplit(str(HTTPConnection(scope).url_for(req["name"], **ps)))
    return {"k": "yes", "path": str(p), "host": p.host, "abs": {"scheme": u.scheme, "netloc": unquote(u.netloc), "path": u.path}}


def strip(table):
    """the table as the specification sees it"""

    def f(r):
        o = {"kind": r["kind"], "pat": r["pat"], "name": r["name"], "id": r.get("id", ""), "any": r.get("any", False),
             "methods": r.get("methods", []), "leaf": r.get("leaf", ""), "port": ":8000" if r.get("port") else "", "slash": r.get("slash", False), "dflt": r.get("dflt", ""),
             "routes": [f(x) for x in r.get("routes", [])]}  # fmt: skip
        return o

    return {"routes": [f(r) for r in table["routes"]], "slash": table["slash"], "dflt": table.get("dflt", "")}
