"""C26: form bodies, well-formed, cut short or corrupted, cut into chunks in many ways, counting the temporary files left open."""

from __future__ import annotations

import hashlib
import os
import random
import tempfile

import anyio

import logging

import asgi
import core
import sched

NONE = 1000000000
opened = []
orig_init = tempfile.SpooledTemporaryFile.__init__


logging.getLogger("python_multipart").setLevel(logging.CRITICAL)
logging.getLogger("multipart").setLevel(logging.CRITICAL)


def _init(self, *a, **k):
    orig_init(self, *a, **k)
    opened.append(self)


def fds():
    n = 0
    for fd in os.listdir("/proc/self/fd"):
        try:
            n += os.readlink(f"/proc/self/fd/{fd}").startswith(tempfile.gettempdir())
        except OSError:
            pass
    return n


def tok(x):
    if isinstance(x, str):
        x = x.encode("utf-8", "surrogatepass")
        return x.decode() if len(x) <= 60 else "sha:" + hashlib.sha1(x).hexdigest()
    return "".join(f"\\x{b:02x}" if b < 32 or b > 126 else chr(b) for b in x) if len(x) <= 40 else "sha:" + hashlib.sha1(x).hexdigest()


def cuts_of(how, body, seed):
    r = random.Random(seed)
    n = len(body)
    if how == "whole":
        return [body]
    if how == "bytes":
        return [body[i : i + 1] for i in range(n)]
    if how == "some":
        ps = sorted({0, n, *(r.randrange(n + 1) for _ in range(r.choice([1, 2, 5, 20])))})
        return [body[a:b] for a, b in zip(ps, ps[1:])]
    return [body[:how], body[how:]]


def execute(scn):
    import starlette.requests as rq
    from starlette.applications import Starlette
    from starlette.datastructures import Headers
    from starlette.exceptions import HTTPException
    from starlette.formparsers import FormParser, MultiPartException, MultiPartParser
    from starlette.requests import ClientDisconnect, Request
    from starlette.responses import PlainTextResponse
    from starlette.routing import Route

    del rq
    cfg, seed = scn["cfg"], scn["seed"]
    ev = []
    body = bytes.fromhex(scn["body"])
    lim = {k: (float("inf") if v == NONE and n != "size" else v) for (k, n) in (("max_files", "files"), ("max_fields", "fields"), ("max_part_size", "size")) for v in [cfg["max"][n]]}
    defaults = {"max_files": 1000, "max_fields": 1000, "max_part_size": 1024 * 1024}
    kw = {k: v for k, v in lim.items() if v != defaults[k] or seed % 2}
    headers = [("content-type", scn["ctype"])]

    tempfile.SpooledTemporaryFile.__init__ = _init
    base = fds()

    def still_open():
        return max(sum(not f.closed for f in opened), fds() - base)

    async def look(form):
        items = []
        for k, v in form.multi_items():
            if isinstance(v, str):
                items.append({"file": False, "name": tok(k), "fn": "", "ct": "", "heads": [], "size": len(v), "body": tok(v)})
            else:
                data = await v.read(3) + await v.read()
                if seed % 3 == 0:
                    await v.seek(0)
                    assert await v.read() == data
                items.append({"file": True, "name": tok(k), "fn": tok(v.filename), "ct": v.content_type or "", "heads": [[a.decode("latin-1"), tok(b)] for a, b in v.headers.raw],
                              "size": v.size, "body": tok(data)})  # fmt: skip
                assert len(data) == v.size or len(data) > 40
        return items

    class Own(Exception):
        pass

    async def use(form, res):
        items = await look(form)
        res.append({"t": "parsed", "outcome": "ok", "items": items, "open": still_open(), "files": sum(i["file"] for i in items)})

    async def through(request, res):
        how = scn["close"]
        if how == "ctx":
            async with request.form(**kw) as form:
                await use(form, res)
        elif how == "ctxerr":
            try:
                async with request.form(**kw) as form:
                    await use(form, res)
                    raise Own
            except Own:
                pass
        else:
            form = await request.form(**kw)
            await use(form, res)
            if seed % 4 == 0:
                assert (await request.form()) is form
            await (form.close() if how == "close" else request.close())

    async def once(chunks):
        opened.clear()
        res = []
        msgs = [{"type": "http.request", "body": c, "more_body": True} for c in chunks]
        if cfg["end"] == "gone":
            msgs.append({"type": "http.disconnect"})
        elif msgs and seed % 2:
            msgs[-1]["more_body"] = False
        else:
            msgs.append({"type": "http.request", "body": b"", "more_body": False})
        if seed % 5 == 0 and msgs:
            msgs.insert(len(msgs) // 2, {"type": "http.request", "body": b"", "more_body": True})
        scope = asgi.http_scope(method="POST", headers=headers)
        outcome = None

        async def receive():
            await anyio.lowlevel.checkpoint()
            return msgs.pop(0)

        async def send(m):
            pass

        try:
            if scn["mode"] == "app":

                async def endpoint(request):
                    nonlocal outcome
                    try:
                        await through(request, res)
                    except HTTPException as e:
                        outcome = "refused" if e.status_code == 400 else f"status {e.status_code}"
                        raise
                    return PlainTextResponse("ok")

                sent = []

                async def keep(m):
                    sent.append(m)

                await Starlette(routes=[Route("/", endpoint, methods=["POST"])])(scope, receive, keep)
                if outcome and asgi.start_of(sent)["status"] != 400:
                    outcome = "not sent"
            elif scn["mode"] == "request":
                await through(Request(scope, receive, send), res)
            else:

                async def stream():
                    for c in filter(None, chunks):  # as Request.stream: only the end is empty
                        yield c
                    if cfg["end"] == "gone":
                        raise ClientDisconnect
                    if not cfg["multipart"] or seed % 2:
                        yield b""

                h = Headers(raw=[(k.encode(), v.encode("latin-1")) for k, v in headers])
                p = MultiPartParser(h, stream(), **kw) if cfg["multipart"] else FormParser(h, stream())
                form = await p.parse()
                await use(form, res)
                await form.close()
        except MultiPartException:
            outcome = "refused" if scn["mode"] != "app" else "refused, not 400"
        except ClientDisconnect:
            outcome = "gone"
        except AssertionError:
            raise
        except Exception as e:
            outcome = "error"
            del e
        if outcome and not res:
            res.append({"t": "parsed", "outcome": outcome, "items": [], "open": still_open(), "files": 0})
        ev.extend(res)
        ev.append({"t": "closed", "open": still_open()})
        for f in opened:
            f.close()

    async def main():
        spool = MultiPartParser.spool_max_size
        MultiPartParser.spool_max_size = scn["spool"] or spool
        try:
            for i, how in enumerate(scn["cuts"]):
                await once(cuts_of(how, body, seed + i))
        finally:
            MultiPartParser.spool_max_size = spool

    try:
        sched.run(main, backend=scn["backend"])
    finally:
        tempfile.SpooledTemporaryFile.__init__ = orig_init
    return {"cfg": cfg, "ev": ev}


NAMES = ["a", "b", "a b", "a;b", "", "a=b", "é", 'q"t', "a%22", "x" * 50, "a'b"]
CTS = ["", "", "text/plain", "image/png", "text/plain; charset=latin-1", "application/x-y"]
BOUNDS = ["b", "boundary", "----WebKitFormBoundary7MA4YWxk", "a'()+_,-./:=?b", "X" * 70]


def content(rng, bound, big):
    k = rng.random()
    if k < 0.25:
        return bytes(rng.randrange(256) for _ in range(rng.randrange(12)))
    if k < 0.6:
        d = b"\r\n--" + bound.encode()
        out = b"".join(rng.choice([b"\r", b"\n", b"\r\n", b"-", b"--", d[: rng.randrange(1, len(d))], bound.encode()[:3], b"x", b"\r\r\n", b"--" + bound.encode()[:-1]]) for _ in range(rng.randrange(7)))
        return out
    if k < 0.65 and big:
        return bytes([rng.randrange(256)]) * rng.choice([1024 * 1024, 1024 * 1024 + 1, 1500000])
    if k < 0.7:
        return b"ab" * rng.choice([50, 700])
    return b"hello"


def quote(s):
    return s.replace('"', '\\"')


def encode(parts, bound, cs, rng, heads_of):
    out = b""
    for p in parts:
        out += b"--" + bound.encode() + b"\r\n"
        for k, v in heads_of(p):
            out += k + b":" + rng.choice([b" ", b" ", b"  ", b""]) + v + b"\r\n"
        out += b"\r\n" + p["raw"] + b"\r\n"
    return out + b"--" + bound.encode() + b"--" + rng.choice([b"\r\n", b"\r\n", b"", b"\r\nepilogue", b"\r\n\r\n"])


def multipart(parts, bound, cs, rng):
    """parts: file, named, name, fn, ct, raw -> body and the parts of the cfg"""
    codec = {"": "utf-8", "utf-8": "utf-8", "UTF-8": "utf-8", "latin-1": "latin-1", "x-none": "latin-1"}[cs]
    cfgparts = []

    def case(k):
        return rng.choice([k, k.lower(), k.upper()])

    def heads_of(p):
        d = rng.choice(["form-data", "form-data", "Form-Data"])
        opts = []
        if p["named"]:
            opts.append(f'name="{quote(p["name"])}"')
        if p["file"]:
            opts.append(f'filename="{quote(p["fn"])}"')
        if rng.random() < 0.2:
            opts.reverse()
        hs = [(case("Content-Disposition"), "; ".join([d, *opts]))]
        if p["ct"]:
            hs.insert(rng.randrange(2), (case("Content-Type"), p["ct"]))
        if rng.random() < 0.3:
            hs.insert(rng.randrange(len(hs) + 1), ("X-Extra", rng.choice(["1", "", "a: b"])))
            if rng.random() < 0.4:
                hs.insert(rng.randrange(len(hs) + 1), (rng.choice(["X-Extra", "x-extra"]), rng.choice(["1", "2"])))
        if not p["named"] and not p["file"] and rng.random() < 0.5:
            hs = [h for h in hs if h[0].lower() != "content-disposition"]
        enc = [(k.encode(), v.encode(codec)) for k, v in hs]
        if not p["file"]:
            try:
                v = p["raw"].decode(codec)
            except UnicodeDecodeError:
                v = p["raw"].decode("latin-1")
        cfgparts.append({"file": p["file"], "named": p["named"], "name": tok(p["name"]), "fn": tok(p["fn"]) if p["file"] else "", "ct": p["ct"] if p["file"] else "",
                         "heads": [[k.decode().lower(), tok(v)] for k, v in enc] if p["file"] else [], "size": len(p["raw"]), "len": len(p["raw"]) if p["file"] else len(v),
                         "body": tok(p["raw"]) if p["file"] else tok(v)})  # fmt: skip
        return enc

    body = encode(parts, bound, cs, rng, heads_of)
    ctype = f"{rng.choice(['multipart/form-data', 'multipart/form-data', 'Multipart/Form-Data'])}; boundary=" + (f'"{bound}"' if not bound.isalnum() or rng.random() < 0.3 else bound)
    if cs:
        ctype += f"; charset={cs}"
    return body, cfgparts, ctype


def urlenc(rng):
    parts = []
    out = []
    for _ in range(rng.choice([0, 1, 2, 3, 5])):
        kv = []
        for _ in range(2):
            s = "".join(rng.choice(["a", "b", " ", "+", "&", "=", ";", "%", "é", "日", "%41", "\r\n", "\x00", "😀", "~", ""]) for _ in range(rng.randrange(5)))
            kv.append(s)
        form = rng.random()
        if kv[0] == "" and (form < 0.3 or kv[1] == ""):
            kv[0] = "k"

        def q(s, key):
            o = ""
            for ch in s:
                if ch.isascii() and ch.isalnum() and rng.random() < 0.8 or ch == "~" or (ch in "=" and not key and rng.random() < 0.5) or (ch == ";" and rng.random() < 0.5):
                    o += ch
                elif ch == " " and rng.random() < 0.7:
                    o += "+"
                else:
                    o += "".join(rng.choice([f"%{b:02X}", f"%{b:02x}"]) for b in ch.encode())
            return o

        if form < 0.15:
            kv[1] = ""
            out.append(q(kv[0], True))
        else:
            out.append(q(kv[0], True) + "=" + q(kv[1], False))
        if rng.random() < 0.1:
            out.append("")
        parts.append({"file": False, "named": True, "name": tok(kv[0]), "fn": "", "ct": "", "heads": [], "size": len(kv[1]), "len": len(kv[1]), "body": tok(kv[1])})
    return "&".join(out).encode(), parts


def dress(parts, mx, end, rng, whole=True, big=False, full=False, bound=None):
    bound = bound or rng.choice(BOUNDS)
    cs = rng.choice(["", "", "utf-8", "UTF-8", "latin-1", "x-none"])
    body, cp, ctype = multipart(parts, bound, cs, rng)
    return finish(True, body, cp, ctype, mx, end, rng, whole, big, full)


def finish(multi, body, cp, ctype, mx, end, rng, whole, big, full=False):
    if not whole:
        b = bytearray(body)
        for _ in range(rng.choice([1, 1, 2])):
            if b:
                i = rng.randrange(len(b))
                r = rng.random()
                if r < 0.4:
                    del b[i]
                elif r < 0.7:
                    b.insert(i, rng.choice(b"\r\n-b:;=& x\xff\""))
                else:
                    b[i] = rng.choice(b"\r\n-b:;=&% x\xff\"")
        body = bytes(b)
    if end != "full":
        body = body[: rng.randrange(len(body) + 1)]
    n = len(body)
    cuts = ["whole"]
    if n < 600:
        cuts.append("bytes")
    if full:
        cuts += list(range(max(0, n - 22), n + 1))
    else:
        cuts += ["some", "some"] + [rng.randrange(n + 1) for _ in range(3)]
    return {"cfg": {"multipart": multi, "whole": whole, "parts": cp, "max": mx, "end": end}, "body": body.hex(), "ctype": ctype, "cuts": cuts if not big else ["whole", "some"],
            "seed": rng.randrange(1000), "mode": rng.choice(["app", "request", "parser"]), "close": rng.choice(["ctx", "ctxerr", "close", "reqclose"]), "spool": rng.choice([0, 0, 2, 8]),
            "backend": rng.choice(["asyncio", "trio"])}  # fmt: skip


def part(rng, file, named, raw):
    return {"file": file, "named": named, "name": rng.choice(NAMES), "fn": rng.choice(["f.txt", "é.png", "a b;c", "", 'q"t']), "ct": rng.choice(CTS), "raw": raw}


def from_model(g, rng):
    unit = rng.choice([1, 1, 3, 40])
    parts = [part(rng, p["file"], p["named"], bytes(rng.randrange(97, 123) for _ in range(p["size"] * unit))) for p in g["parts"]]
    m = g["max"]
    mx = {"files": NONE if m["files"] == 99 else m["files"], "fields": NONE if m["fields"] == 99 else m["fields"], "size": NONE if m["size"] == 99 else m["size"] * unit}
    return dress(parts, mx, g["end"], rng)


def from_content(g, rng):
    raw = "".join(g["q"]).replace("r", "\r").replace("n", "\n").encode()
    parts = [part(rng, rng.random() < 0.5, True, raw)]
    return dress(parts, {"files": 1000, "fields": 1000, "size": 1024 * 1024}, "full", rng, full=True, bound="b")


def clean(raw, bound):
    return raw if ("\r\n--" + bound).encode() not in b"\r\n" + raw + b"\r\n" else b"x"


def rnd(rng, k=0):
    whole = rng.random() < 0.8
    end = rng.choice(["full"] * 6 + ["gone", "cut"])
    if rng.random() < 0.25:
        body, cp = urlenc(rng)
        return finish(False, body, cp, rng.choice(["application/x-www-form-urlencoded", "application/x-www-form-urlencoded; charset=utf-8", "Application/X-WWW-Form-Urlencoded"]),
                      {"files": 1000, "fields": 1000, "size": 1024 * 1024}, end if end != "cut" else "full", rng, whole, False)  # fmt: skip
    bound = rng.choice(BOUNDS)
    big = rng.random() < 0.03
    parts = [part(rng, rng.random() < 0.5, rng.random() < 0.95, clean(content(rng, bound, big), bound)) for _ in range(rng.choice([0, 1, 1, 2, 3, 6]))]
    nf = sum(p["file"] for p in parts)
    top = max([len(p["raw"]) for p in parts if not p["file"]], default=0)
    mx = {"files": rng.choice([1000, 1000, NONE, nf, max(0, nf - 1), 0]), "fields": rng.choice([1000, 1000, NONE, len(parts) - nf, max(0, len(parts) - nf - 1)]), "size": rng.choice([1024 * 1024] * 3 + [top, max(0, top - 1)])}
    return dress(parts, mx, end, rng, whole, big, bound=bound)


def many(rng, n, file):
    parts = [part(rng, file, True, b"x") for _ in range(n)]
    s = dress(parts, {"files": 1000, "fields": 1000, "size": 1024 * 1024}, "full", rng, big=True)
    s["spool"] = 0
    return s


def pick(t, rng, ok):
    ks = [e for e in t["ev"] if ok(e)]
    return rng.choice(ks) if ks else None


def lost(t, rng):
    e = pick(t, rng, lambda e: e["t"] == "parsed" and e["items"])
    if e and t["cfg"]["whole"] and t["cfg"]["end"] == "full":
        del e["items"][rng.randrange(len(e["items"]))]
        return t


def changed(t, rng):
    e = pick(t, rng, lambda e: e["t"] == "parsed" and e["items"])
    if e and t["cfg"]["whole"]:
        rng.choice(e["items"])[rng.choice(["name", "fn", "ct", "body"])] += "z"
        return t


def leak(t, rng):
    e = pick(t, rng, lambda e: e["t"] == "closed" or e["outcome"] != "ok")
    e["open"] += 1
    return t


def lenient(t, rng):
    e = pick(t, rng, lambda e: e["t"] == "parsed" and e["outcome"] == "refused")
    if e and t["cfg"]["whole"] and t["cfg"]["end"] == "full":
        e["outcome"] = "ok"
        return t


def strict(t, rng):
    e = pick(t, rng, lambda e: e["t"] == "parsed" and e["outcome"] == "ok")
    if e and t["cfg"]["whole"]:
        e.update(outcome="refused", items=[], open=0)
        return t


def run(c):
    c.model("MC_Form", "MC_Form_big.cfg" if c.thorough else None, min_states=10000)
    c.model("MC_FormCut", "MC_FormCut_big.cfg" if c.thorough else None, min_states=100000)
    scns = [from_model(g, c.rng) for g in c.behaviours("MC_Form", "MC_Form_gen.cfg")]
    cont = [from_content(g, c.rng) for g in c.behaviours("MC_FormCut", "MC_FormCut_gen.cfg") for _ in range(c.n(1, 4))]
    scns = c.rng.sample(scns, c.n(1200, len(scns))) + cont
    scns += [rnd(c.rng) for _ in range(c.n(2000, 30000))]
    # the limits nobody gave, whoever is asked
    scns += [{**many(c.rng, n, f), "mode": m, "seed": 2} for n in (1000, 1001) for f in (False, True) for m in ("request", "parser")]
    runs = list(zip(scns, core.run_pool(execute, scns)))
    c.validate("Trace_Form", runs, mutators=[lost, changed, leak, lenient, strict])
