"""C35: schemas generated from route tables of every shape, and endpoints asked where the schema says they are."""

from __future__ import annotations

import copy
import functools
import json

import asgi
import core
import sched
import yaml

CLASS_METHODS = ["get", "post", "put", "patch", "delete", "options"]
NODOC = [None, "", "Just text.", "Text\n---\nand more text", "- a\n- b", "   ", "42"]


def content(d):
    return {"operationId": d, "responses": {200: {"description": f"A {d}.", "examples": [{"x": d}]}}}


def docstring(d, style):
    if not d:
        return NODOC[style % len(NODOC)]
    y = yaml.dump(content(d), default_flow_style=bool(style % 2))
    if style % 3 == 1:
        return f"Some text about it.\n\n---\n\n{y}"
    if style % 3 == 2:
        return f"Some text.\n---\nold: {{x: 1}}\n---\n{y}"
    return "\n    " + y.replace("\n", "\n    ")


def decode(v):
    try:
        d = v["operationId"]
        return d if v == content(d) else "odd " + json.dumps(v, default=repr)
    except Exception:
        return "odd " + repr(v)


def entries(paths):
    return sorted([p, m, decode(v)] for p, ms in paths.items() for m, v in ms.items())


def execute(scn):
    from starlette.applications import Starlette
    from starlette.convertors import Convertor, register_url_convertor
    from starlette.endpoints import HTTPEndpoint, WebSocketEndpoint
    from starlette.middleware import Middleware
    from starlette.middleware.gzip import GZipMiddleware
    from starlette.responses import Response
    from starlette.routing import Host, Mount, Route, Router, WebSocketRoute
    from starlette.schemas import SchemaGenerator

    class Digits(Convertor):
        regex = "[0-9]+"

        def convert(self, value):
            return value

        def to_string(self, value):
            return value

    register_url_convertor("c_2", Digits())
    cfg = scn["cfg"]
    ev = []

    def answer(d):
        return Response(headers={"x-doc": d or "none"})

    def func(d, style):
        if style % 5 == 0:

            def f(request):
                return answer(d)
        elif style % 5 == 1:

            async def f(request):
                return answer(d)
        elif style % 5 == 2:

            class Obj:
                async def method(self, request):
                    return answer(d)

            Obj.method.__doc__ = docstring(d, style)
            return Obj().method
        elif style % 5 == 3:

            class Obj:
                @staticmethod
                def f(request):
                    return answer(d)

            f = Obj.f
        else:

            async def g(request):
                return answer(d)

            g.__doc__ = "operationId: inner"

            @functools.wraps(g)
            async def f(request):
                return await g(request)

        f.__doc__ = docstring(d, style)
        return f

    def cls(docs, style):
        body = {}
        for m, d in docs:
            if style % 2:

                async def h(self, request, d=d):
                    return answer(d)
            else:

                def h(self, request, d=d):
                    return answer(d)

            h.__doc__ = docstring(d, style)
            body[m] = h
        parent = {}
        if style % 3 == 0:  # some of them inherited
            parent = {m: body.pop(m) for m in list(body)[: len(body) // 2]}
        base = type("Base", (HTTPEndpoint,), {**parent, "__doc__": "operationId: base"})
        return type("Endpoint", (base,), {**body, "__doc__": "operationId: class", "helper": lambda self: None})

    async def opaque(scope, receive, send):
        raise AssertionError

    async def wsf(websocket):
        """operationId: ws"""

    class Ws(WebSocketEndpoint):
        """operationId: ws"""

        def get(self):
            """operationId: ws"""

    def build(items, n=0):
        out = []
        for i, it in enumerate(items):
            st = scn["style"] + 7 * i + 13 * n
            kw = {} if it["shown"] and st % 2 else {"include_in_schema": it["shown"]}
            if it["k"] == "func":
                ms = [m.lower() if st % 3 == 0 else m for m in it["methods"] if m != "HEAD"]
                if ms[0].upper() == "GET" and len(ms) == 1 and st % 4 == 0:
                    ms = None
                out.append(Route(it["path"], func(it["docs"][0][1], st), methods=ms if st % 5 or ms is None else tuple(ms), **kw))
            elif it["k"] == "class":
                out.append(Route(it["path"], cls(it["docs"], st), **kw))
            elif it["k"] == "ws":
                out.append(WebSocketRoute(it["path"], Ws if st % 2 else wsf))
            elif it["k"] == "opaque":
                out.append(Mount(it["path"], app=opaque))
            else:
                inner = build(it["items"], n + 1)
                if it["k"] == "host":
                    out.append(Host(it["path"], app=Router(inner) if st % 2 else Starlette(routes=inner)))
                elif st % 4 == 0:
                    out.append(Mount(it["path"], app=Starlette(routes=inner)))
                elif st % 4 == 1:
                    out.append(Mount(it["path"], app=Router(inner)))
                elif st % 4 == 2:
                    out.append(Mount(it["path"], routes=inner, middleware=[Middleware(GZipMiddleware)]))
                else:
                    out.append(Mount(it["path"], routes=inner, name=f"m{i}"))
        return out

    def by_hand(app, routes, st):
        """The same table, put together route by route."""
        for i, r in enumerate(routes):
            n = st + i
            if isinstance(r, Route):
                kw = {} if r.include_in_schema and n % 2 else {"include_in_schema": r.include_in_schema}
                if r.methods:
                    kw["methods"] = sorted(r.methods - {"HEAD"})
                if n % 3:
                    app.add_route(r.path, r.endpoint, **kw)
                else:
                    assert app.route(r.path, **kw)(r.endpoint) is r.endpoint
            elif isinstance(r, WebSocketRoute):
                if n % 3:
                    app.add_websocket_route(r.path, r.endpoint)
                else:
                    assert app.websocket_route(r.path)(r.endpoint) is r.endpoint
            elif isinstance(r, Host) and n % 2:
                app.host(r.host, r.app, r.name)
            elif isinstance(r, Mount) and n % 2 and hasattr(r.app, "routes"):
                app.mount(r.path, r.app, r.name)
            else:
                app.routes.append(r)
        return app

    async def main():
        base = {k: v for k, v in cfg["top"]}
        paths = {}
        for p, m, d in cfg["base"]:
            paths.setdefault(p, {})[m] = content(d)
        if paths or scn["style"] % 2:
            base["paths"] = paths
        gen = SchemaGenerator(base)

        async def schema_endpoint(request):
            return gen.OpenAPIResponse(request=request)

        apps = []
        for t in cfg["tables"]:
            routes = build(t)
            routes.insert(0, Route("/schema-here", schema_endpoint, include_in_schema=False))
            apps.append(by_hand(Starlette(), routes, scn["style"]) if scn["style"] % 4 == 0 else Starlette(routes=routes))
        for i, how in scn["gens"]:
            app = apps[i - 1]
            ctype = ""
            if how == "direct":
                got = gen.get_schema(app.routes)
            elif how == "keyword":
                got = copy.deepcopy(gen.get_schema(routes=app.routes))
            else:
                sent, exc = await asgi.call(app, asgi.http_scope(path="/schema-here"))
                assert exc is None, exc
                ctype = asgi.header(sent[0], "content-type")
                got = yaml.safe_load(b"".join(m.get("body", b"") for m in sent[1:]))
            ps = entries(got.get("paths", {}))
            ev.append({"t": "schema", "i": i, "paths": ps, "top": sorted([k, json.dumps(v)] for k, v in got.items() if k != "paths"),
                       "basepaths": entries(base.get("paths", {})), "ctype": ctype})  # fmt: skip
            if how == "direct" and scn["style"] % 3 == 0:
                got["changed"] = 1  # the caller's own copy, then
            if scn["ask"]:
                known = {(p, m) for p, m, _ in cfg["base"]}
                for p, m, _ in ps:
                    if (p, m) in known:
                        continue
                    sc = asgi.http_scope(m.upper(), p.replace("{n}", "5").replace("{s}", "w").replace("{rest}", "a/b"))
                    sent, exc = await asgi.call(app, sc)
                    doc = asgi.header(sent[0], "x-doc") if sent else None
                    ev.append({"t": "ask", "i": i, "path": p, "method": m, "doc": doc if exc is None else repr(exc)})

    sched.run(main, backend=scn["backend"])
    return {"cfg": {**cfg, "top": sorted([k, json.dumps(v)] for k, v in cfg["top"])}, "ev": ev}


TOPS = [["openapi", "3.0.0"], ["info", {"title": "T", "version": "1.0"}], ["tags", ["a"]], ["components", {"x": {}}]]
METHODS = ["GET", "POST", "PUT", "PATCH", "DELETE", "OPTIONS", "TRACE"]


def clean(items):
    return [{**it, "methods": list(it["methods"]), "docs": [list(d) for d in it["docs"]], "items": clean(it["items"])} for it in items]


def dress(tables, base, gens, ask, rng):
    return {"cfg": {"tables": tables, "base": base, "top": rng.sample(TOPS, rng.randrange(len(TOPS) + 1))}, "gens": gens, "ask": ask, "style": rng.randrange(420), "backend": rng.choice(["asyncio", "trio"])}


def how(rng):
    return rng.choice(["direct", "keyword", "served"])


def rnd(rng):
    unique = rng.random() < 0.5
    n = [0]

    def doc():
        n[0] += 1
        return f"d{n[0]}" if rng.random() < 0.75 else ""

    def item(depth):
        n[0] += 1
        k = rng.choice(["func"] * 5 + ["class"] * 2 + ["ws", "opaque"] + (["mount", "mount", "host"] if depth else []))
        lit = f"/l{n[0]}" if unique else rng.choice(["/a", "/b", "/a/b", "/", ""] if k == "mount" else ["/a", "/b", "/a/b", "/"])
        par = "" if lit.endswith("/") and not unique else rng.choice(["", "", "/{n:int}", "/{s}", "/{s:str}", "/{n:int}/x/{s}", "/{n:float}/t", "/{n:c_2}/{s}", "/{rest:path}" if k in ("func", "class") else ""])
        path = lit + par
        if k == "func":
            ms = rng.sample(METHODS, rng.choice([1, 1, 2, 3]))
            if "GET" in ms:
                ms.append("HEAD")
            return {"k": k, "path": path, "methods": ms, "docs": [["", doc()]], "shown": rng.random() < 0.85, "items": []}
        if k == "class":
            ms = rng.sample([*CLASS_METHODS, "head"], rng.choice([0, 1, 2, 4]))
            return {"k": k, "path": path, "methods": [], "docs": [[m, doc()] for m in ms], "shown": rng.random() < 0.85, "items": []}
        if k in ("ws", "opaque"):
            return {"k": k, "path": lit if lit not in ("", "/") else "/z", "methods": [], "docs": [], "shown": True, "items": []}
        if k == "host":
            if unique:
                k, path = "mount", lit
            else:
                path = rng.choice(["h.example", "{sub}.example", "{sub:str}.example"])
        if k == "mount":
            path = path.rstrip("/")
        return {"k": k, "path": path, "methods": [], "docs": [], "shown": True, "items": [item(depth - 1) for _ in range(rng.choice([0, 1, 2, 3]))]}

    tables = [[item(2) for _ in range(rng.choice([0, 1, 2, 4, 6]))] for _ in range(rng.choice([1, 1, 2, 3]))]
    for t in tables:
        names(t, ())
    base = [[p, m, f"b{i}"] for i, (p, m) in enumerate(rng.sample([("/a", "get"), ("/a", "put"), ("/base", "get"), ("/l2", "post"), ("/a/b", "delete")], rng.choice([0, 0, 1, 3])))]
    gens = [[rng.randint(1, len(tables)), how(rng)] for _ in range(rng.choice([1, 2, 4]))]
    return dress(tables, base, gens, unique, rng)


def names(items, seen):
    """parameters of nested mounts need names of their own"""
    for it in items:
        here = seen
        for name in ("n", "s", "rest"):
            if "{" + name in it["path"] and it["k"] != "host":
                if name in seen:
                    for form in ("", ":int", ":str", ":float", ":path", ":c_2"):
                        it["path"] = it["path"].replace("{" + name + form + "}", "q")
                here = (*here, name)
        names(it["items"], here)


def pick(t, rng, kind):
    ks = [e for e in t["ev"] if e["t"] == kind]
    return rng.choice(ks) if ks else None


def mut_drop(t, rng):
    e = pick(t, rng, "schema")
    if e and e["paths"]:
        e["paths"].pop()
        return t


def mut_conv(t, rng):
    e = pick(t, rng, "schema")
    if e and e["paths"]:
        e["paths"][0][0] += "/"
        return t


def mut_doc(t, rng):
    e = pick(t, rng, "schema")
    if e and e["paths"]:
        e["paths"][0][2] += "x"
        return t


def mut_base(t, rng):
    e = pick(t, rng, "schema")
    if e:
        e["basepaths"].append(["/zz", "get", "d"])
        return t


def mut_ask(t, rng):
    e = pick(t, rng, "ask")
    if e:
        e["doc"] = "none"
        return t


def run(c):
    c.model("MC_Schema", min_states=5000)
    gen = [clean(g) for g in c.behaviours("MC_Schema", "MC_Schema_gen.cfg")]
    scns = []
    for _ in range(c.n(1, 6)):
        c.rng.shuffle(gen)
        for i in range(0, len(gen) - 1, 2):
            tables = copy.deepcopy(gen[i : i + 2])
            scns.append(dress(tables, [], [[1, how(c.rng)], [2, how(c.rng)]], False, c.rng))
    scns += [rnd(c.rng) for _ in range(c.n(3000, 40000))]
    runs = list(zip(scns, core.run_pool(execute, scns)))
    c.validate("Trace_Schema", runs, mutators=[mut_drop, mut_conv, mut_doc, mut_base, mut_ask])
