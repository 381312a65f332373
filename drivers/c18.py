"""C18: applications of every kind behind GZipMiddleware, several requests to the same application."""

from __future__ import annotations

import copy
import os
import tempfile
import zlib

import anyio

import asgi
import core
import sched


class AppErr(Exception):
    pass


def data(n, style):
    if style % 3 == 0:
        return b"a" * n
    if style % 3 == 1:
        return bytes((k * 7 + style + (k >> 5)) % 251 for k in range(n))
    x, out = style + 1, bytearray()
    while len(out) < n:
        x = (x * 1103515245 + 12345) & 0x7FFFFFFF
        out.append(x >> 16 & 255)
    return bytes(out)


def lower(headers):
    return [[k.decode("latin-1").lower(), v.decode("latin-1")] for k, v in headers]


def execute(scn):
    from starlette.applications import Starlette
    from starlette.middleware import Middleware
    from starlette.middleware.gzip import GZipMiddleware
    from starlette.responses import FileResponse, PlainTextResponse, Response, StreamingResponse

    ev = []
    st = scn["style"]
    heads = {i: [(k.encode(), v.encode("latin-1")) for k, v in h] for i, h in enumerate(scn["heads"])}
    shared = {}
    fd, path = tempfile.mkstemp(prefix="c18-")
    os.write(fd, data(scn["file"], st))
    os.close(fd)

    def messages(rq):
        for k, m in enumerate(rq["msgs"]):
            if m["k"] == "start":
                d = {"type": "http.response.start", "status": m["status"]}
                h = heads[m["h"]] if m["shared"] else list(heads[m["h"]])
                if h or st % 2:
                    d["headers"] = h if m["shared"] or st % 5 else tuple(h)
            elif m["k"] == "body":
                d = {"type": "http.response.body"}
                if m["n"] or m["opt"] % 2:
                    d["body"] = data(m["n"], st + k)
                if m["more"] or m["opt"] < 2:
                    d["more_body"] = m["more"]
            else:
                d = {"type": m["type"], "info": {"x": [k]}}
                if m["type"] == "http.response.pathsend":
                    d = {"type": m["type"], "path": path}
            yield d

    def target(rq):
        if rq["kind"] == "raw":
            async def app(scope, receive, send):
                for k, d in enumerate(messages(rq)):
                    if rq["raise"] == k:
                        raise AppErr
                    if rq["msgs"][k]["k"] == "body" and rq["msgs"][k]["shared"]:
                        d = shared.setdefault((rq["msgs"][k]["n"], d.get("more_body")), d)
                    await send(d)
                if rq["raise"] >= len(rq["msgs"]):
                    raise AppErr
            return app
        h = dict((k, v) for k, v in scn["heads"][rq["h"]] if k != "content-length")
        if rq["kind"] == "response":
            key = ("response", rq["h"], rq["n"])
            if key not in shared:
                cls = PlainTextResponse if "content-type" not in h else Response
                shared[key] = cls(data(rq["n"], st) if cls is Response else b"x" * rq["n"], status_code=rq["status"], headers=h)
            return shared[key]
        if rq["kind"] == "file":
            if "file" not in shared:
                shared["file"] = FileResponse(path, headers=h)
            return shared["file"]
        chunks = [data(n, st + k) for k, n in enumerate(rq["chunks"])]
        if rq["n"] % 2:
            return StreamingResponse(iter(chunks), headers=h, status_code=rq["status"])

        async def gen():
            for b in chunks:
                yield b
        return StreamingResponse(gen(), headers=h, status_code=rq["status"])

    async def main():
        cur = {}

        async def logging(scope, receive, send):
            async def log(m):
                cur["last"] = copy.deepcopy(m)
                if m["type"] == "http.response.start":
                    cur["app_ce"] = any(k.lower() == b"content-encoding" for k, v in m.get("headers", []))
                    ev.append({"t": "app", "m": {"k": "start", "status": m["status"], "hdrs": lower(m.get("headers", []))}})
                elif m["type"] == "http.response.body":
                    cur["body"] += m.get("body", b"")
                    ev.append({"t": "app", "m": {"k": "body", "n": len(m.get("body", b"")), "more": bool(m.get("more_body"))}})
                else:
                    cur["others"].append(copy.deepcopy(m))
                    ev.append({"t": "app", "m": {"k": "other", "type": m["type"]}})
                await send(m)

            try:
                await target(cur["rq"])(scope, receive, log)
            except BaseException:
                cur["raised"] = True
                raise

        app = logging
        for _ in range(1 + (st % 7 == 0)):
            app = GZipMiddleware(app, minimum_size=scn["min"], compresslevel=[9, 1, 6, 0][st % 4])
        if st % 11 == 0 and all(rq["raise"] < 0 for rq in scn["reqs"]):
            app = Starlette(middleware=[Middleware(GZipMiddleware, minimum_size=scn["min"])])
            app.mount("/", logging)
        for rq in scn["reqs"]:
            cur.update(rq=rq, body=b"", others=[], raised=False, app_ce=False)
            out = {"plain": b"", "raw": 0, "gz": False, "d": None, "fin": False, "bad": False}
            ev.append({"t": "req", "ae": rq["ae"], "min": scn["min"]})

            async def send(m):
                if m["type"] == "http.response.start":
                    hs = lower(m.get("headers", []))
                    out["gz"] = [v for k, v in hs if k == "content-encoding"] == ["gzip"] and not cur["app_ce"]
                    out["d"] = zlib.decompressobj(31)
                    ev.append({"t": "sent", "m": {"k": "start", "status": m["status"], "hdrs": hs}})
                elif m["type"] == "http.response.body":
                    b = m.get("body", b"")
                    out["raw"] += len(b)
                    if out["gz"]:
                        try:
                            out["plain"] += out["d"].decompress(b)
                        except zlib.error:
                            out["bad"] = True
                        out["bad"] |= bool(out["d"].unused_data)
                    else:
                        out["plain"] += b
                    good = not out["bad"] and cur["body"].startswith(out["plain"])
                    ev.append({"t": "sent", "m": {"k": "body", "got": len(out["plain"]) if good else -1, "raw": out["raw"], "more": bool(m.get("more_body")),
                                                  "fin": out["gz"] and out["d"].eof and not out["d"].unused_data}})  # fmt: skip
                else:
                    o = cur["others"].pop(0) if cur["others"] else None
                    ev.append({"t": "sent", "m": {"k": "other", "type": m["type"], "same": o == m}})

            scope = asgi.http_scope("GET", "/", b"", [("host", "h")] + [("accept-encoding", v) for v in rq["ae"]])
            if rq["kind"] == "file" and rq["n"] % 2:
                scope["extensions"] = {"http.response.pathsend": {}}
            exc = None

            async def receive():
                out["asked"] = out.get("asked", 0) + 1
                if out["asked"] > 1:
                    await anyio.sleep_forever()
                return {"type": "http.request", "body": b"", "more_body": False}

            try:
                await app(scope, receive, send)
            except Exception as e:
                exc = e
            ev.append({"t": "end", "exc": exc is not None, "raised": cur["raised"]})

    try:
        sched.run(main, backend=scn["backend"])
    finally:
        os.unlink(path)
    return {"cfg": {"x": 0}, "ev": ev}


AE = [[], ["gzip"], ["gzip"], ["gzip, deflate, br"], ["br;q=1.0, gzip;q=0.8"], ["gzip;q=0"], ["gzip; q=0.000, br"], ["identity"], ["xgzip"], ["gzipped, br"], ["*"], ["br", "gzip"],
      ["gzip", "gzip"], [""], ["deflate"], ["identity, gzip;q=0.001"], ["GZIP"], ["gzip;q=0.0, identity"], ["br,gzip"], [" gzip "], ["br;q=0, gzip"], ["identity;q=0, gzip;q=1"], ["gzip ;q=0"],
      ["x;gzip"], ["br;x=gzip"], ["not-gzip, br"]]  # fmt: skip
HEADS = [
    [], [("content-type", "text/plain")], [("content-length", "{n}"), ("x-a", "1")], [("content-encoding", "br")], [("content-encoding", "gzip")],
    [("content-type", "text/event-stream")], [("content-type", "text/event-stream; charset=utf-8")], [("vary", "Cookie")], [("vary", "accept-encoding, Origin")],
    [("vary", "*")], [("set-cookie", "a=1"), ("set-cookie", "b=2"), ("etag", '"q"')], [("vary", "Cookie"), ("vary", "Origin")], [("content-encoding", "")],
    [("content-type", "text/event-streams-not"), ("x-a", "é")], [("content-encoding", "identity")], [("content-length", "{n}"), ("content-encoding", "deflate")],
    [("content-length", "{n}"), ("vary", "X-Accept-Encoding")], [("content-type", "text/html"), ("content-length", "{n}"), ("cache-control", "no-cache")],
]  # fmt: skip


def total(msgs):
    return sum(m.get("n", 0) for m in msgs)


def from_model(b, rng):
    mn = b["hist"][0]["min"]
    scale = rng.choice([1, 1, 7, 400])
    heads = []
    msgs = []
    for e in b["hist"][1:]:
        m = e["m"]
        if m["k"] == "start":
            heads.append(m["hdrs"])
            msgs.append({"k": "start", "status": m["status"], "h": 0, "shared": rng.random() < 0.7})
        elif m["k"] == "body":
            # the model's 0, 1, 2 bytes against a minimum of 2
            n = {0: 0, 1: mn * scale - 1, 2: mn * scale}[m["n"]]
            msgs.append({"k": "body", "n": n, "more": m["more"], "opt": rng.randrange(4), "shared": rng.random() < 0.3})
        else:
            msgs.append({"k": "other", "type": rng.choice(["http.response.debug", "http.response.push", "http.response.early_hint"])})
    heads = [[[k, str(total(msgs)) if k == "content-length" else v] for k, v in h] for h in heads] or [[]]
    rq = {"kind": "raw", "ae": b["hist"][0]["ae"], "msgs": msgs, "raise": -1}
    reqs = [rq] + [{**rq, "ae": rng.choice(AE)} for _ in range(rng.randrange(2))]
    return {"min": mn * scale, "style": rng.randrange(1000), "heads": heads, "reqs": reqs, "file": 50, "backend": rng.choice(["asyncio", "trio"])}


def rnd(rng):
    mn = rng.choice([1, 10, 100, 500, 500, 3000])
    size = lambda: rng.choice([0, 1, mn - 1, mn, mn + 1, rng.randrange(3 * mn), rng.randrange(3 * mn), 20, 5, rng.choice([0, 40000, 140000])])  # noqa: E731
    s = {"min": mn, "style": rng.randrange(1000), "heads": [], "reqs": [], "file": size(), "backend": rng.choice(["asyncio", "trio"])}
    base = None
    for _ in range(rng.choice([1, 1, 2, 3])):
        if base and rng.random() < 0.6:
            s["reqs"].append({**base, "ae": rng.choice(AE)})
            continue
        h = len(s["heads"])
        rq = {"ae": rng.choice(AE), "kind": rng.choice(["raw", "raw", "raw", "response", "response", "stream", "file"]), "h": h, "n": size() or 1, "status": rng.choice([200, 200, 201, 404, 500]), "raise": -1}
        hd = rng.choice(HEADS) + rng.choice([[], [], [], rng.choice(HEADS)])
        if rq["kind"] == "raw":
            k = rng.choice([1, 1, 2, 3, 5])
            bodies = [{"k": "body", "n": size(), "more": i < k - 1, "opt": rng.randrange(4), "shared": rng.random() < 0.3} for i in range(k)]
            msgs = [{"k": "start", "status": rng.choice([200, 404, 500]), "h": h, "shared": rng.random() < 0.7}, *bodies]
            if rng.random() < 0.1:
                msgs[1:] = [{"k": "other", "type": "http.response.pathsend"}]
            for _ in range(rng.choice([0, 0, 0, 1, 2])):
                msgs.insert(rng.randrange(len(msgs) + 1), {"k": "other", "type": rng.choice(["http.response.debug", "http.response.push", "http.response.early_hint", "http.response.trailers"])})
            if rng.random() < 0.15:
                rq["raise"] = rng.randrange(len(msgs) + 1)
            rq["msgs"] = msgs
            hd = [[a, b.replace("{n}", str(total(msgs)))] for a, b in hd]
        elif rq["kind"] == "stream":
            rq["chunks"] = [size() for _ in range(rng.randrange(5))]
        s["heads"].append([[a, b.replace("{n}", "1")] for a, b in hd])
        base = rq
        s["reqs"].append(rq)
    return s


def pick(t, rng, ok):
    ks = [e for e in t["ev"] if ok(e)]
    return rng.choice(ks) if ks else None


def mut_lost(t, rng):
    e = pick(t, rng, lambda e: e["t"] == "sent" and e["m"]["k"] == "body" and not e["m"]["more"] and e["m"]["got"] > 0)
    if e:
        e["m"]["got"] -= 1
        return t


def mut_unasked(t, rng):
    e = pick(t, rng, lambda e: e["t"] == "sent" and e["m"]["k"] == "start" and not any(k == "content-encoding" for k, v in e["m"]["hdrs"]))
    if e:
        e["m"]["hdrs"].append(["content-encoding", "gzip"])
        return t if t["ev"][[x["t"] for x in t["ev"]].index("req")]["ae"] in ([], ["br"], ["xgzip"], ["gzip;q=0"]) and sum(x["t"] == "req" for x in t["ev"]) == 1 else None


def mut_vary(t, rng):
    if sum(x["t"] == "req" for x in t["ev"]) == 1:
        for k, e in enumerate(t["ev"]):
            if e["t"] == "sent" and e["m"]["k"] == "start" and ["content-encoding", "gzip"] in e["m"]["hdrs"] and not any(["content-encoding", "gzip"] in x["m"]["hdrs"] for x in t["ev"] if x["t"] == "app" and x["m"]["k"] == "start"):
                e["m"]["hdrs"] = [h for h in e["m"]["hdrs"] if h[0] != "vary"]
                return t


def mut_swallow(t, rng):
    e = pick(t, rng, lambda e: e["t"] == "sent" and e["m"]["k"] == "other")
    if e:
        t["ev"].remove(e)
        return t


def mut_header(t, rng):
    e = pick(t, rng, lambda e: e["t"] == "sent" and e["m"]["k"] == "start")
    if e:
        e["m"]["hdrs"].append(["x-more", "1"])
        return t


def mut_length(t, rng):
    cl = lambda e: [h for h in e["m"]["hdrs"] if h[0] == "content-length"]  # noqa: E731
    app = next((e for e in t["ev"] if e["t"] == "app" and e["m"]["k"] == "start"), None)
    e = next((e for e in t["ev"] if e["t"] == "sent" and e["m"]["k"] == "start"), None)
    if app and e and t["ev"][-2]["t"] == "sent" and ["content-encoding", "gzip"] in e["m"]["hdrs"] and ["content-encoding", "gzip"] not in app["m"]["hdrs"] and cl(e) and sum(x["t"] == "req" for x in t["ev"]) == 1 and not t["ev"][-1]["raised"]:
        cl(e)[0][1] = str(int(cl(e)[0][1]) + 1)
        return t


def run(c):
    if c.thorough:
        c.model("MC_Gzip", min_states=50000)
    scns = [from_model(b, c.rng) for b in c.behaviours("MC_Gzip", "MC_Gzip_gen.cfg") for _ in range(c.n(3, 30))]
    scns += [rnd(c.rng) for _ in range(c.n(4000, 60000))]
    runs = list(zip(scns, core.run_pool(execute, scns)))
    c.validate("Trace_Gzip", runs, mutators=[mut_lost, mut_unasked, mut_vary, mut_swallow, mut_header, mut_length])
