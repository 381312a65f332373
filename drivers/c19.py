"""C19: histories of sessions: browsers that present any cookie ever issued, altered or forged, at any time, to applications of several shapes."""

from __future__ import annotations

import base64
import email.utils
import json
import time

import asgi
import core
import sched

BASE = 1_700_000_000


class Boom(Exception):
    pass


def pairs(d):
    return [[k, json.dumps(v, sort_keys=True)] for k, v in d.items()]


def execute(scn):
    import itsdangerous
    from starlette.applications import Starlette
    from starlette.datastructures import Secret
    from starlette.exceptions import HTTPException
    from starlette.middleware import Middleware
    from starlette.middleware.base import BaseHTTPMiddleware
    from starlette.middleware.gzip import GZipMiddleware
    from starlette.middleware.sessions import SessionMiddleware
    from starlette.responses import PlainTextResponse, StreamingResponse
    from starlette.routing import Mount, Route, WebSocketRoute

    cfg, shape, seed = scn["cfg"], scn["shape"], scn["seed"]
    ev = []
    cur = {}
    OWN = [(b"x-own", b"1"), (b"set-cookie", b"other=2; path=/"), (b"content-type", b"text/plain")]
    const = {"type": "http.response.start", "status": 200, "headers": OWN if seed % 2 else tuple(OWN)}
    bare = {"type": "http.response.start", "status": 200}

    def change(session):
        r = cur["req"]
        cur["reads"] = pairs(session)
        for o in r["ops"]:
            if o[0] == "clear":
                session.clear()
            elif o[0] == "del":
                if o[1] in session:
                    session.pop(o[1])
            else:
                old, new = session.get(o[1]), json.loads(o[2])
                if isinstance(old, list) and isinstance(new, list):
                    old[:] = new
                elif isinstance(old, dict) and isinstance(new, dict):
                    old.clear()
                    old.update(new)
                else:
                    session[o[1]] = new
        cur["left"] = pairs(session)

    async def raw(scope, receive, send):
        if scope["type"] == "websocket":
            await receive()
            change(scope["session"])
            await send({"type": "websocket.accept"})
            await send({"type": "websocket.close"})
            return
        change(scope["session"])
        if cur["req"]["end"] == "boom":
            raise Boom
        await send(bare if shape == "bare" else const if shape == "const" else dict(const, headers=list(OWN)))
        await send({"type": "http.response.body", "body": b"x"})

    async def ep(request):
        change(request.session)
        end = cur["req"]["end"]
        if end == "boom":
            raise Boom
        if end == "refused":
            raise HTTPException(404, headers={"x-own": "1"})
        cls = StreamingResponse if seed % 3 == 0 else PlainTextResponse
        r = cls(iter(["x"]) if cls is StreamingResponse else "x", headers={"x-own": "1"})
        r.set_cookie("other", "2")
        return r

    async def ws(websocket):
        await websocket.accept()
        change(websocket.session)
        await websocket.close()

    class Pass(BaseHTTPMiddleware):
        async def dispatch(self, request, call_next):
            return await call_next(request)

    kw = {"session_cookie": cfg["name"], "max_age": cfg["maxage"] or None, "path": cfg["path"], "same_site": cfg["samesite"], "https_only": cfg["secure"], "domain": cfg["domain"] or None}
    defaults = {"session_cookie": "session", "max_age": 14 * 24 * 60 * 60, "path": "/", "same_site": "lax", "https_only": False, "domain": None}
    kw = {k: v for k, v in kw.items() if v != defaults[k] or seed % 2}
    key = scn["key"]
    kw["secret_key"] = Secret(key) if seed % 3 == 0 else key
    if shape in ("raw", "const", "bare"):
        app = SessionMiddleware(raw, **kw)
    else:
        routes = [Route("/", ep), WebSocketRoute("/", ws)]
        sm = Middleware(SessionMiddleware, **kw)
        if shape == "mount":
            app = Starlette(routes=[Mount("/", routes=routes, middleware=[sm])])
        else:
            app = Starlette(routes=routes, middleware={"app": [sm], "inner": [Middleware(Pass), sm], "outer": [sm, Middleware(Pass), Middleware(GZipMiddleware)]}[shape])

    tokens = []

    def spoil(tok, how, x):
        """an altered or forged version of an issued cookie"""
        payload, ts, sig = tok.rsplit(".", 2)
        abc = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
        if how == "forged":
            signer = [itsdangerous.TimestampSigner("other"), itsdangerous.TimestampSigner(key + "x"), itsdangerous.TimestampSigner(""), itsdangerous.TimestampSigner(key, salt="x"), itsdangerous.Signer(key + "y")][x % 5]
            return signer.sign(payload).decode()

        def sub(t, i):
            # (the last character of a part may carry bits that mean nothing)
            i %= max(1, len(t) - 1)
            c = abc[(abc.find(t[i]) + 1 + x % 60) % 64]
            return t[:i] + (c if c != t[i] else "A" if t[i] != "A" else "B") + t[i + 1 :]

        kind = x % 7
        if kind == 0:
            return f"{sub(payload, x // 7)}.{ts}.{sig}"
        if kind == 1:
            return f"{payload}.{sub(ts, x // 7)}.{sig}"
        if kind == 2:
            return f"{payload}.{ts}.{sub(sig, x // 7)}"
        if kind == 3:
            return tok[: -2 - x % (len(tok) - 2)]
        if kind == 4:
            return f"{base64.b64encode(b'{' + chr(34).encode() + b'a' + chr(34).encode() + b': 7}').decode()}.{ts}.{sig}" if payload != "eyJhIjogN30=" else f"e30=.{ts}.{sig}"
        if kind == 5:
            p2, t2, s2 = (tokens[x % len(tokens)] if tokens else tok).rsplit(".", 2)
            return f"{p2}.{ts}.{sig}" if p2 != payload else f"{payload}.{ts}"
        return f"{payload}..{sig}"

    GARBAGE = ["", "null", "a.b.c", "x", "....", "\xe9.\xe9.\xe9", "e30=", "eyJhIjogMX0=", "A" * 5000, "eyJhIjogMX0=.aaaa", "%00", "a b", '"x"', "e30=.AAAAAA.AAAA"]

    async def one(r):
        cur.update(req=r, reads=[], left=[])
        sent = r["sent"] if r["sent"] <= len(tokens) else 0
        how = r["how"] if sent or r["how"] == "garbage" else "asis"
        if how == "garbage":
            sent = 0
            value = GARBAGE[r["x"] % len(GARBAGE)]
        elif sent:
            value = tokens[sent - 1] if how == "asis" else spoil(tokens[sent - 1], how, r["x"])
            if how != "asis" and value in tokens:
                how = "asis"
                sent = tokens.index(value) + 1
        else:
            value = None
        headers = []
        if value is not None:
            headers = [("cookie", [f"{cfg['name']}={value}", f"u=1; {cfg['name']}={value}", f"{cfg['name']}={value}; z=2", f"{cfg['name']}=old; {cfg['name']}={value}"][r["x"] % 4])]
        elif r["x"] % 3 == 0:
            headers = [("cookie", "other=2; u=1")]
        now["t"] = r["at"]
        scope = asgi.http_scope(headers=headers) if r["typ"] == "http" else asgi.ws_scope(headers=headers)
        msgs, exc = await asgi.call(app, scope)
        if exc is not None and not isinstance(exc, Boom):
            cur["left"] = cur["left"] or [["raised", repr(exc)[:80]]]
        start = next((m for m in msgs if m["type"] == "http.response.start"), {})
        hs = [(bytes(k).lower(), bytes(v)) for k, v in start.get("headers", [])]
        mine = [v.decode("latin-1") for k, v in hs if k == b"set-cookie" and v.startswith(cfg["name"].encode() + b"=")]
        rest = [(k, v) for k, v in hs if not (k == b"set-cookie" and v.decode("latin-1") in mine)]
        if r["typ"] == "websocket" or r["end"] == "boom":
            kept = True
        elif shape == "bare":
            kept = rest == []
        elif shape in ("raw", "const"):
            kept = rest == OWN
        else:
            kept = [v for k, v in rest if k == b"x-own"] == [b"1"] and len([k for k, v in rest if k == b"set-cookie"]) == (r["end"] == "ok")
        attrs, dead, what = [], False, "none"
        if mine:
            val, *ats = [a.strip() for a in mine[-1].split(";")]
            for a in ats:
                k, _, v = a.partition("=")
                k = k.lower()
                if k == "expires":
                    if email.utils.parsedate_to_datetime(v).timestamp() <= BASE:
                        dead = True
                        continue
                if k == "max-age" and int(v) <= 0:
                    dead = True
                    continue
                attrs.append([k, v.lower() if k == "samesite" else v])
            what = "expire" if dead else "cookie"
            if not dead:
                tokens.append(val.partition("=")[2])
        ev.append({"t": "req", "at": r["at"], "typ": r["typ"], "sent": sent, "how": how, "reads": cur["reads"], "left": cur["left"], "ops": r["ops"], "end": r["end"], "set": what, "n": len(mine),
                   "attrs": attrs, "dead": dead, "kept": kept, "exc": exc is not None})  # fmt: skip

    now = {"t": 0}
    real = time.time

    async def main():
        for r in scn["reqs"]:
            await one(r)

    time.time = lambda: BASE + now["t"] + scn["frac"]
    try:
        sched.run(main, backend=scn["backend"])
    finally:
        time.time = real
    return {"cfg": cfg, "ev": ev}


SHAPES = ["raw", "const", "bare", "app", "inner", "outer", "mount"]
KEYS = ["a", "b", "user", "\u00e9", "", "a b", "1", "\"q;"]
VALS = ["1", "\"x\"", "null", "true", "[1, 2]", "[]", "{}", "{\"n\": [1, {\"m\": null}]}", "\"\u00e9\\u0000\"", "1.5", "\"a; b=c, d\"", "-0", "12345678901234567890", "\"\"", "false", "\"" + "z" * 300 + "\""]


def canon(v):
    return json.dumps(json.loads(v), sort_keys=True)


def dress(cfg, reqs, rng):
    return {"cfg": cfg, "reqs": reqs, "shape": rng.choice(SHAPES), "seed": rng.randrange(1000), "key": rng.choice(["secret", "k", "\u00e9 x", "a" * 70]), "frac": rng.choice([0, 0.5]), "backend": rng.choice(["asyncio", "trio"])}


def config(rng, age):
    return {"name": rng.choice(["session", "session", "sid", "__Host-s", "S"]), "path": rng.choice(["/", "/", "/app", "/a/b"]), "domain": rng.choice(["", "", "example.org", ".e.org"]), "maxage": age,
            "samesite": rng.choice(["lax", "lax", "strict", "none"]), "secure": rng.random() < 0.4}  # fmt: skip


def from_model(g, rng):
    unit = rng.choice([1, 10, 1000])
    reqs = [{**h, "at": h["at"] * unit, "x": rng.randrange(10000)} for h in g["hist"]]
    return dress(config(rng, g["age"] * unit), reqs, rng)


def rnd(rng):
    age = rng.choice([0, 1, 10, 14 * 24 * 60 * 60])
    at = 0
    reqs = []
    ntok = 0
    for _ in range(rng.choice([2, 4, 6, 10])):
        at += rng.choice([0, 0, 1, age, age + 1, max(0, age - 1)])
        ops = []
        for _ in range(rng.choice([0, 0, 1, 1, 2, 4])):
            k = rng.choice(KEYS)
            ops.append(rng.choice([["set", k, canon(rng.choice(VALS))]] * 4 + [["del", k], ["clear"]]))
        typ = rng.choice(["http"] * 5 + ["websocket"])
        sent = rng.choice([ntok, ntok, ntok, rng.randint(0, ntok)])
        end = rng.choice(["ok"] * 6 + ["refused", "boom"]) if typ == "http" else "ok"
        reqs.append({"typ": typ, "sent": sent, "how": rng.choice(["asis"] * 6 + ["altered", "forged", "garbage"]), "ops": ops, "end": end, "at": at, "x": rng.randrange(10000)})
        ntok += typ == "http" and end != "boom"
    return dress(config(rng, age), reqs, rng)


def pick(t, rng, ok):
    ks = [e for e in t["ev"] if ok(e)]
    return rng.choice(ks) if ks else None


def mut_reads(t, rng):
    e = pick(t, rng, lambda e: True)
    e["reads"] = e["reads"] + [["zz", "1"]]
    return t


def mut_forget(t, rng):
    e = pick(t, rng, lambda e: e["reads"])
    if e:
        e["reads"] = []
        return t


def mut_noset(t, rng):
    e = pick(t, rng, lambda e: e["set"] != "none")
    if e:
        e.update(set="none", n=0, attrs=[], dead=False)
        return t


def mut_attr(t, rng):
    e = pick(t, rng, lambda e: e["attrs"])
    if e:
        del e["attrs"][rng.randrange(len(e["attrs"]))]
        return t


def mut_exc(t, rng):
    e = pick(t, rng, lambda e: e["end"] != "boom")
    if e:
        e["exc"] = True
        return t


def mut_twice(t, rng):
    e = pick(t, rng, lambda e: True)
    e["n"] += 1
    return t


def run(c):
    c.model("MC_Session", "MC_Session_big.cfg" if c.thorough else None, min_states=100000)
    scns = [from_model(g, c.rng) for g in c.behaviours("MC_Session", "MC_Session_gen.cfg") for _ in range(c.n(1, 8))]
    scns += [rnd(c.rng) for _ in range(c.n(2500, 40000))]
    runs = list(zip(scns, core.run_pool(execute, scns)))
    c.validate("Trace_Session", runs, mutators=[mut_reads, mut_forget, mut_noset, mut_attr, mut_exc, mut_twice])
