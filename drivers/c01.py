"""C01: every kind of response object, constructed, edited and transmitted."""

from __future__ import annotations

import os
import tempfile

import asgi
import core
import sched

MEDIA = {"txt": "text/plain", "json": "application/json", "html": "text/html", "png": "image/png", "css": "text/css", "qqq": "text/plain", "pdf": "application/pdf"}  # fmt: skip


def tree(v):
    if isinstance(v, str):
        return {"k": "str", "v": list(v)}
    if isinstance(v, list):
        return {"k": "list", "v": [tree(x) for x in v]}
    if isinstance(v, dict):
        return {"k": "obj", "v": [[tree(k), tree(x)] for k, x in v.items()]}
    return {"k": "raw", "v": "null" if v is None else "true" if v is True else "false" if v is False else repr(v)}


def execute(scn):
    from starlette import responses as R
    from starlette.datastructures import URL, Headers

    ev = []
    k = scn["cls"]
    def plain(c):
        if not isinstance(c, tuple):
            return c
        b = c[1]
        # a whole buffer, a part of one, or every second byte of one
        return [memoryview(b), memoryview(b"<<" + b + b">")[2:-1], memoryview(bytes(x for y in b for x in (y, 0)))[::2]][scn["style"] % 3]

    content = scn["content"]
    content = [plain(c) for c in content] if k == "StreamingResponse" else plain(content)
    charset = scn["charset"]
    hdrs = scn["hdrs"]
    kw = {}
    if hdrs is not None:
        kw["headers"] = dict(hdrs)
    if scn["status"] is not None:
        kw["status_code"] = scn["status"]
    if scn["media"] is not None:
        kw["media_type"] = scn["media"]

    def enc(c):
        return c.encode(charset) if isinstance(c, str) else bytes(c)

    cfg = {
        "kind": "known", "status": scn["status"] if scn["status"] is not None else 200, "charset": charset,
        "media": scn["media"], "hdrs": [list(p) for p in dict(hdrs or [])  .items()], "redirect": False, "url": [], "method": scn["method"],
        "name": None, "namebytes": [], "disp": "", "refused": "", "prefix": "websocket." if scn["ws"] else "", "json": [], "hex": "",
    }  # fmt: skip
    tmp = None
    path = None
    try:
        if k == "Response":
            base, cfg["hex"] = R.Response, enc(content if content is not None else b"").hex()
            args = (content,)
        elif k in ("PlainTextResponse", "HTMLResponse"):
            base, cfg["hex"] = getattr(R, k), enc(content).hex()
            cfg["media"] = cfg["media"] or {"P": "text/plain", "H": "text/html"}[k[0]]
            args = (content,)
        elif k == "JSONResponse":
            base = R.JSONResponse
            cfg["media"] = cfg["media"] or "application/json"
            cfg["json"] = [tree(content)]
            args = (content,)
            if "nan" in repr(content) or "inf" in repr(content):
                cfg["refused"] = "ValueError"
        elif k == "RedirectResponse":
            base = R.RedirectResponse
            cfg["redirect"], cfg["url"] = True, list(content.encode())
            cfg["status"] = scn["status"] if scn["status"] is not None else 307
            args = (URL(content),) if scn["style"] % 2 else (content,)
            kw.pop("media_type", None)
            cfg["media"] = None
        elif k == "StreamingResponse":
            base = R.StreamingResponse
            cfg["kind"], cfg["hex"] = "stream", b"".join(enc(c) for c in content).hex()

            async def agen():
                for c in content:
                    yield c

            args = (agen,)
        else:
            base = R.FileResponse
            cfg["kind"] = "file"
            tmp = tempfile.mkdtemp(prefix="c01-")
            path = os.path.join(tmp, "f." + scn["ext"])
            with open(path, "wb") as f:
                f.write(content)
            cfg["hex"] = content.hex()
            args = (path,)
            ext = scn["ext"]
            if scn["name"] is not None:
                kw["filename"] = scn["name"]
                cfg["name"], cfg["namebytes"] = scn["name"], list(scn["name"].encode())
                ext = scn["name"].rsplit(".", 1)[-1] if "." in scn["name"] else "qqq"
            cfg["media"] = cfg["media"] or MEDIA[ext]
            cfg["disp"] = "attachment"
            if scn["style"] % 3 == 0:
                kw["content_disposition_type"] = cfg["disp"] = "inline"
            if scn["style"] % 4 == 0:
                kw["stat_result"] = os.stat(path)
        cls = base
        if charset != "utf-8" or scn["chunk"]:
            cls = type("Sub", (base,), {"charset": charset, **({"chunk_size": scn["chunk"]} if scn["chunk"] else {})})
        if scn["submedia"] and k in ("Response", "StreamingResponse") and scn["media"] is None:
            cls = type("Sub", (cls,), {"media_type": scn["submedia"]})
            cfg["media"] = scn["submedia"]

        async def main():
            r = None
            exc = ""
            a = args
            if k == "StreamingResponse":
                a = (agen(),) if scn["style"] % 3 else (list(content),)
            try:
                if k == "JSONResponse" and scn["style"] % 3 == 0:
                    r = cls(content=content, **kw)
                else:
                    r = cls(*a, **kw)
            except Exception as e:
                exc = type(e).__name__
            text = ""
            if r is not None and k == "JSONResponse":
                cfg["hex"] = bytes(r.body).hex()
                text = bytes(r.body).decode("utf-8")
            ev.append({"t": "new", "exc": exc, "text": text})
            if r is None:
                return

            def operate(ops):
                for o in ops:
                    ev.append({"t": "op", **o})
                    h = r.headers
                    if o["op"] == "set":
                        h[o["k"]] = o["v"]
                    elif o["op"] == "del":
                        del h[o["k"]]
                    elif o["op"] == "append":
                        h.append(o["k"], o["v"])
                    elif o["op"] == "setdefault":
                        h.setdefault(o["k"], o["v"])
                    elif o["op"] == "update":
                        if len(o["ps"]) % 2:
                            h |= dict(o["ps"])
                        else:
                            h.update(dict(o["ps"]))
                    elif o["op"] == "cookie":
                        key, val = o["v"].split("=", 1)
                        if val == '""':
                            r.delete_cookie(key)
                        else:
                            r.set_cookie(key, val)

            async def transmit():
                if scn["ws"]:
                    scope = asgi.ws_scope("/")
                else:
                    scope = asgi.http_scope(scn["method"], "/")
                scope["asgi"]["spec_version"] = scn["spec"]
                sent, exc = await asgi.call(r, scope)
                for m in sent:
                    if m["type"].endswith("start"):
                        hs = m.get("headers", [])
                        ev.append({"t": "msg", "k": "start", "type": m["type"], "status": m["status"],
                                   "bytes": all(type(x) is bytes for p in hs for x in p), "h": asgi.hdrs(m)})  # fmt: skip
                    else:
                        ev.append({"t": "msg", "k": "body", "type": m["type"], "hex": bytes(m.get("body", b"")).hex(),
                                   "more": m.get("more_body", False)})  # fmt: skip
                ev.append({"t": "ret", "exc": type(exc).__name__ if exc else ""})

            operate(scn["ops"])
            await transmit()
            if scn["again"] is not None and (k != "StreamingResponse" or scn["style"] % 3 == 0 and False):
                operate(scn["again"])
                await transmit()

        sched.run(main, backend=scn["backend"])
    finally:
        if tmp:
            os.unlink(path)
            os.rmdir(tmp)
    return {"cfg": cfg, "ev": ev}


NAMES = ["X-A", "x-a", "x-b", "Content-Type", "Content-Length", "ETag", "Vary", "Cache-Control", "Location"]
VALUES = ["1", "a, b", "", "caf\u00e9", "text/x", "0"]
STATUS = [None, None, 200, 201, 204, 206, 299, 301, 304, 400, 404, 418, 500, 503, 100, 101, 103, 199, 599]
TYPES = [None, None, "text/plain", "text/x", "Text/Html", "text/x; charset=utf-16", "text/x; Charset=\"a\"", "application/json", "image/png", "text/event-stream", "application/x; charset=q"]  # fmt: skip
TEXT = ["", "x", "h\u00e9llo", "\u20ac" * 3, "line\nline", "\U0001f600", "a" * 100]


def headers(rng):
    if rng.random() < 0.35:
        return None
    return [(rng.choice(NAMES), rng.choice(VALUES)) for _ in range(rng.choice([0, 1, 1, 2, 3, 4]))]


def jval(rng, d=0):
    r = rng.random()
    if d < 3 and r < 0.25:
        return [jval(rng, d + 1) for _ in range(rng.randrange(4))]
    if d < 3 and r < 0.5:
        return {rng.choice(["a", "b", "\u00e9", 'q"', "", "\\"]): jval(rng, d + 1) for _ in range(rng.randrange(4))}
    if d == 0 and r < 0.53:
        return rng.choice([float("nan"), float("inf"), [float("-inf")]])
    return rng.choice([None, True, False, 0, -5, 10**25, 1.5, 1e300, "", "x", 'a"b\\c\n\t', "\u00e9\u20ac\U0001f600\u2028", "</script>", "/"])


def ops(rng):
    out = []
    for _ in range(rng.choice([0, 0, 1, 2, 3, 5])):
        op = rng.choice(["set", "del", "append", "setdefault", "update", "cookie", "cookie"])
        o = {"op": op, "k": rng.choice(NAMES), "v": rng.choice(VALUES)}
        if op == "update":
            o["ps"] = [list(p) for p in dict((rng.choice(NAMES), rng.choice(VALUES)) for _ in range(rng.randrange(4))).items()]
        if op == "cookie":
            o["v"] = rng.choice(["a", "b"]) + "=" + rng.choice(["1", "zz", '""'])
        if op == "del" and o["k"].lower() in ("etag",):
            continue
        out.append(o)
    return out


def rnd(rng):
    cls = rng.choice(["Response", "PlainTextResponse", "HTMLResponse", "JSONResponse", "RedirectResponse", "StreamingResponse", "FileResponse", "FileResponse"])  # fmt: skip
    charset = rng.choice(["utf-8"] * 5 + ["latin-1", "utf-16-le"])
    text = [t for t in TEXT if charset != "latin-1" or all(ord(c) < 256 for c in t)]

    def one():
        t = rng.choice(text)
        return rng.choice([t, t.encode(charset), ("mv", t.encode(charset)), b"\x00\xff"])

    content = one()
    if cls == "Response" and rng.random() < 0.2:
        content = None
    elif cls == "JSONResponse":
        content, charset = jval(rng), "utf-8"
    elif cls == "RedirectResponse":
        content = rng.choice(["/", "/a b", "//x/\u00e9?q=\u20ac&a=b#f", "http://[::1]:80/%20%zz", "https://u:p@h/~a;b=c,d!$'()*+@", "/\"<>\\^`{|}", "?x", ""])  # fmt: skip
    elif cls == "StreamingResponse":
        content = [one() for _ in range(rng.randrange(6))]
    elif cls == "FileResponse":
        charset = "utf-8"
        content = os.urandom(rng.choice([0, 1, 6, 7, 8, 13, 14, 15, 30, 200]))
    s = {"cls": cls, "content": content, "charset": charset, "hdrs": headers(rng), "status": rng.choice(STATUS), "media": rng.choice(TYPES),
         "ops": ops(rng) if cls != "FileResponse" else []}  # fmt: skip
    if cls == "FileResponse" and rng.random() < 0.3:
        s["ops"] = [{"op": "cookie", "k": "", "v": "a=1"}, {"op": "append", "k": "x-z", "v": "q"}][: rng.randrange(3)]
    return s


def dress(s, rng):
    s.update(method=rng.choice(["GET", "GET", "HEAD", "POST", "OPTIONS"]), style=rng.randrange(60), backend=rng.choice(["asyncio", "asyncio", "trio"]),
             ws=s["cls"] in ("Response", "PlainTextResponse", "HTMLResponse", "JSONResponse", "RedirectResponse") and rng.random() < 0.15,
             chunk=rng.choice([0, 1, 7]) if s["cls"] == "FileResponse" else 0, spec=rng.choice(["2.0", "2.3", "2.4"]),
             submedia=rng.choice([None, "text/x", "a/b"]), ext=rng.choice(list(MEDIA)),
             name=rng.choice([None, None, "a.txt", "a b.json", "\u00e9\u20ac.png", 'x"y;z.css', "dir/n.pdf", "plain", "50%.html"]),
             again=ops(rng) if rng.random() < 0.3 and s["cls"] != "FileResponse" else [] if rng.random() < 0.2 else None)  # fmt: skip
    return s


def from_model(b):
    c = bytes.fromhex(b["hex"])
    return {"cls": "Response" if b["kind"] == "known" else "StreamingResponse", "content": c if b["kind"] == "known" else [c], "charset": "utf-8",
            "hdrs": b["hdrs"], "status": b["status"], "media": None if b["media"] == "None" else b["media"], "ops": []}  # fmt: skip


def mut_len(t, rng):
    for e in t["ev"]:
        if e["t"] == "msg" and e["k"] == "start":
            for p in e["h"]:
                if p[0] == "content-length":
                    p[1] = str(int(p[1]) + 1) if p[1].isdigit() else "1"
                    return t


def mut_order(t, rng):
    for e in t["ev"]:
        if e["t"] == "msg" and e["k"] == "start":
            r = [p for p in e["h"] if p[0].startswith("x-")]
            if len(r) > 1 and r[0] != r[1]:
                i, j = e["h"].index(r[0]), e["h"].index(r[1])
                e["h"][i], e["h"][j] = e["h"][j], e["h"][i]
                return t


def mut_body(t, rng):
    for e in t["ev"]:
        if e["t"] == "msg" and e["k"] == "body" and e["hex"]:
            e["hex"] = e["hex"][2:]
            return t


def mut_final(t, rng):
    for e in t["ev"]:
        if e["t"] == "msg" and e["k"] == "body" and not e["more"]:
            e["more"] = True
            return t


def mut_status(t, rng):
    for e in t["ev"]:
        if e["t"] == "msg" and e["k"] == "start":
            e["status"] += 1
            return t


def run(c):
    c.model("MC_Reply", min_states=10000)
    scns = [dress(from_model(b), c.rng) for b in c.behaviours("MC_Reply", "MC_Reply_gen.cfg")]
    scns += [dress(rnd(c.rng), c.rng) for _ in range(c.n(9000, 90000))]
    big = {"cls": "FileResponse", "charset": "utf-8", "hdrs": None, "status": None, "media": None, "ops": []}
    for n in (65535, 65536, 65537, 131072):
        scns.append({**dress({**big, "content": bytes(range(256)) * (n // 256 + 1)}, c.rng), "method": "GET", "chunk": 0, "content": (bytes(range(251)) * 600)[:n]})  # fmt: skip
    runs = list(zip(scns, core.run_pool(execute, scns)))
    c.validate("Trace_Reply", runs, mutators=[mut_len, mut_order, mut_body, mut_final, mut_status])
