"""C31: scripted WSGI applications behind the bridge, with requests of every form and servers of every pace."""

from __future__ import annotations

import sys
import threading
import warnings

import anyio

import asgi
import core
import sched


class AppErr(Exception):
    pass


def b8(t):
    return t.encode("utf-8").decode("latin-1")


def execute(scn):
    warnings.simplefilter("ignore")
    from starlette.middleware.wsgi import WSGIMiddleware
    from starlette.routing import Mount, Router

    ev = []
    mine, reported = AppErr("mine"), AppErr("reported")
    loop = []

    class Iterable:
        def __init__(self, gen):
            self.gen = gen

        def __iter__(self):
            return self.gen

        def close(self):
            ev.append({"t": "closed"})

    class Iterator(Iterable):
        def __iter__(self):
            return self

        def __next__(self):
            return next(self.gen)

    def wsgi(environ, start_response):
        inp = environ["wsgi.input"]
        if scn["read"] == "read":
            body = inp.read()
        elif scn["read"] == "lines":
            body = b"".join(inp)
        else:
            body = b""
            while c := inp.read(3):
                body += c
        hs = sorted([k, v] for k, v in environ.items() if k.startswith("HTTP_") or k in ("CONTENT_LENGTH", "CONTENT_TYPE"))
        ev.append({"t": "environ", "loop": threading.get_ident() == loop[0], "saw": {
            "method": environ["REQUEST_METHOD"], "script": environ["SCRIPT_NAME"], "path": environ["PATH_INFO"], "query": environ["QUERY_STRING"], "headers": hs, "body": body.decode("latin-1"),
            "server": f"{environ['SERVER_NAME']}|{environ['SERVER_PORT']}", "scheme": environ["wsgi.url_scheme"], "client": environ.get("REMOTE_ADDR", ""), "protocol": environ["SERVER_PROTOCOL"]}})  # fmt: skip
        chunks = list(scn["chunks"])

        def step(op):
            if op in ("start", "start-report", "again"):
                st = scn["status"] if op != "again" else "500 Later Error"
                hs = [tuple(h) for h in scn["headers"]] if op != "again" else [("x-later", "1")]
                rep = op != "start"
                ev.append({"t": "start", "status": int(st.split(" ")[0]), "headers": [list(h) for h in hs], "report": rep})
                if rep:
                    try:
                        raise reported
                    except AppErr:
                        start_response(st, hs, sys.exc_info())
                elif scn["named"]:
                    start_response(status=st, response_headers=hs)
                else:
                    start_response(st, hs)
            elif op == "raise":
                ev.append({"t": "raise"})
                raise mine

        prog = list(scn["prog"])
        while prog and prog[0] != "give":
            step(prog.pop(0))
        if prog:
            prog.pop(0)
        if scn["form"] == "list" and set(prog) <= {"chunk", "end"}:
            out = chunks[: prog.count("chunk")]
            for c in out:
                ev.append({"t": "chunk", "data": c.decode("latin-1")})
            ev.append({"t": "end"})
            return out if scn["named"] else tuple(out)

        def gen():
            for op in prog:
                if op == "chunk":
                    c = chunks.pop(0)
                    ev.append({"t": "chunk", "data": c.decode("latin-1")})
                    yield c
                elif op == "end":
                    ev.append({"t": "end"})
                else:
                    step(op)

        if scn["form"] == "gen":
            return gen()
        ev.append({"t": "given"})
        return (Iterator if scn["form"] == "iterator" else Iterable)(gen())

    r = scn["req"]
    scope = asgi.http_scope(method=r["method"], path=r["path"], query=r["query"].encode("latin-1"), root_path=r["root"], scheme=r["scheme"])
    scope["headers"] = [(k.encode(), v.encode("latin-1")) for k, v in r["headers"]]
    scope["http_version"] = r["version"]
    scope["server"] = r["server"]
    scope["client"] = r["client"]
    for k in ("server", "client"):
        if scope[k] is None and r["bare"]:
            del scope[k]
    app = WSGIMiddleware(wsgi)
    if scn["mount"]:
        app = Router(routes=[Mount(scn["mount"], app=app)])
    inbox = []
    parts = r["parts"]
    for i, p in enumerate(parts):
        m = {"type": "http.request", "body": p, "more_body": i + 1 < len(parts)}
        if r["bare"]:
            if not p:
                del m["body"]
            if i + 1 == len(parts):
                del m["more_body"]
        inbox.append(m)

    async def receive():
        await anyio.sleep(0)
        return inbox.pop(0) if inbox else {"type": "http.disconnect"}

    async def send(m):
        for _ in range(scn["slow"]):
            await anyio.sleep(0)
        if m["type"] == "http.response.start":
            ev.append({"t": "sent", "kind": "start", "status": m["status"], "headers": [[k.decode("latin-1"), v.decode("latin-1")] for k, v in m.get("headers", [])], "data": "", "more": True})
        else:
            ev.append({"t": "sent", "kind": "body", "status": 0, "headers": [], "data": m.get("body", b"").decode("latin-1"), "more": m.get("more_body", False)})

    async def main():
        loop.append(threading.get_ident())
        exc = "none"
        try:
            await app(scope, receive, send)
        except Exception as e:  # noqa: BLE001
            exc = "raised" if e is mine else "reported" if e is reported else "other"
            if exc == "other":
                ev.append({"t": "note", "exc": repr(e)})
        ev.append({"t": "over", "exc": exc})

    sched.run(main, backend=scn["backend"])
    server = r["server"] or ("localhost", 80)
    return {"cfg": {"method": r["method"], "root": b8(r["root"] + scn["mount"]), "path": b8(r["path"]), "query": r["query"], "headers": r["headers"], "body": b"".join(parts).decode("latin-1"), "scheme": r["scheme"],
                    "server": f"{server[0]}|{server[1]}", "client": r["client"][0] if r["client"] else "", "version": r["version"]}, "ev": ev}  # fmt: skip


SEG = ["a", "b c", "é", "日本", "w", "wx", "%41", "a-b_c", "", "..", "+"]
HEADERS = [("x-a", "1"), ("x-a", "2"), ("x-a", "a,b"), ("host", "h:1"), ("content-length", "3"), ("content-type", "text/plain"), ("content-type", "text/html"), ("cookie", "a=b"), ("cookie", "c=d"), ("x-lat", "caf\xe9"),
           ("x_a", "u"), ("accept", ""), ("content-encoding", "gzip"), ("content-language", "en"), ("x-content-type", "z"), ("http-x", "1"), ("request-method", "EVIL"), ("server-name", "EVIL"), ("x-long-header-name", "v")]  # fmt: skip


def rnd(rng, hist):
    mount = rng.choice(["", "", "/w", "/w/é"])
    root = rng.choice(["", "", "/r", "/r/s", "/é"])
    path = "/".join([""] + [rng.choice(SEG) for _ in range(rng.randint(1, 3))])
    kind = rng.random()
    if mount or kind < 0.6:
        path = root + mount + path if not path.startswith("//") or not (root + mount) else root + mount + "/p"
    elif kind < 0.7:
        path = root + "x"  # not under the root at all
    elif kind < 0.75:
        path = root or "/"
    chunks = [rng.choice([b"", b"x", b"\x00\xff", b"hello\n", b"z" * 70000]) for _ in hist]
    parts = [rng.choice([b"", b"ab", b"\xff\x00", b"l1\nl2\n", b"y" * 9]) for _ in range(rng.choice([1, 1, 2, 4]))]
    req = {"method": rng.choice(["GET", "POST", "PUT", "HEAD", "OPTIONS", "BREW"]), "root": root, "path": path, "query": rng.choice(["", "a=1&b=%20", "\xe9=1", "x"]), "headers": [list(h) for h in rng.sample(HEADERS, rng.randint(0, 6))],
           "scheme": rng.choice(["http", "https"]), "server": rng.choice([("testserver", 80), ("::1", 8443), None]), "client": rng.choice([("1.2.3.4", 5), None]), "version": rng.choice(["1.1", "1.0", "2"]),
           "parts": parts, "bare": rng.random() < 0.3}  # fmt: skip
    rh = [("Content-Type", "text/plain"), ("Set-Cookie", "a=b"), ("Set-Cookie", "c=d"), ("X-Pad", " v "), ("x-lat", "caf\xe9"), ("X-Empty", ""), ("Content-Length", "3"), ("ETag", '"x"')]
    return {"prog": hist, "chunks": chunks, "read": rng.choice(["read", "lines", "bits"]), "status": rng.choice(["200 OK", "404 Not Found", "201 Created", "500 Internal Server Error", "299 A Long Reason Phrase"]),
            "headers": [list(h) for h in rng.sample(rh, rng.randint(0, 5))], "named": rng.random() < 0.2, "form": rng.choice(["list", "gen", "iterable", "iterator"]), "req": req, "mount": mount,
            "slow": rng.choice([0, 0, 1, 5]), "backend": rng.choice(["asyncio", "trio"])}  # fmt: skip


def pick(t, rng, ok):
    ks = [e for e in t["ev"] if ok(e)]
    return rng.choice(ks) if ks else None


def mut_env(t, rng):
    e = pick(t, rng, lambda e: e["t"] == "environ")
    if e:
        k = rng.choice(["method", "script", "path", "query", "body", "server", "headers"])
        e["saw"] = {**e["saw"], k: e["saw"][k] + ([["HTTP_ZZ", "1"]] if k == "headers" else "x")}
        return t


def mut_sent(t, rng):
    e = pick(t, rng, lambda e: e["t"] == "sent")
    if e:
        k = rng.choice(["data", "status", "drop"])
        if k == "drop":
            t["ev"].remove(e)
        elif k == "data":
            e["data"] += "x"
        else:
            e["status"] += 1
            e["kind"] = "start"
        if any(x["t"] == "raise" for x in t["ev"]):
            return None
        return t


def mut_again(t, rng):
    e = pick(t, rng, lambda e: e["t"] == "sent" and e["kind"] == "start")
    if e:
        t["ev"].insert(t["ev"].index(e), dict(e))
        return t


def mut_over(t, rng):
    e = t["ev"][-1]
    e["exc"] = "other" if e["exc"] != "none" and rng.random() < 0.5 else {"none": "raised", "raised": "none", "reported": "none"}[e["exc"]]
    return t


def mut_close(t, rng):
    e = pick(t, rng, lambda e: e["t"] == "closed")
    if e:
        t["ev"].remove(e)
        return t


def run(c):
    c.model("MC_Wsgi", "MC_Wsgi_big.cfg", min_states=1500)
    hists = {tuple(g["hist"]) for g in c.behaviours("MC_Wsgi", "MC_Wsgi_gen.cfg")}
    hists = sorted(hists)
    scns = [rnd(c.rng, list(h)) for h in hists for _ in range(c.n(8, 60))]
    good = [h for h in hists if "raise" not in h]
    scns += [rnd(c.rng, list(c.rng.choice(good))) for _ in range(c.n(1200, 15000))]
    runs = list(zip(scns, core.run_pool(execute, scns)))
    c.validate("Trace_Wsgi", runs, mutators=[mut_env, mut_sent, mut_again, mut_over, mut_close])
