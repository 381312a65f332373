"""C36: uploaded files written, read and moved to disk in every order, several at a time."""

from __future__ import annotations

import io
import tempfile
import threading

import anyio
import asgi
import core
import sched

BIG = 10**6


class Watch:
    """Notices work on the disk done by the event loop's own thread."""

    METHODS = ["write", "read", "seek", "close", "rollover", "readline", "writelines", "truncate"]

    def __init__(self):
        self.loop = None
        self.hits = []

    def note(self, what):
        if self.loop is not None and threading.get_ident() == self.loop:
            self.hits.append(what)

    def __enter__(self):
        cls = tempfile.SpooledTemporaryFile
        self.saved = {m: cls.__dict__[m] for m in self.METHODS if m in cls.__dict__}
        for m, f in self.saved.items():

            def g(spool, *a, _f=f, _m=m, **kw):
                before = spool._rolled
                try:
                    return _f(spool, *a, **kw)
                finally:
                    if before or spool._rolled:
                        self.note(_m)

            setattr(cls, m, g)
        return self

    def __exit__(self, *a):
        for m, f in self.saved.items():
            setattr(tempfile.SpooledTemporaryFile, m, f)


class Disk:
    """A file on disk which notices the same."""

    def __init__(self, watch):
        self._f = tempfile.TemporaryFile()
        self._w = watch

    def tell(self):
        return self._f.tell()

    def __getattr__(self, name):
        f = getattr(self._f, name)

        def g(*a, **kw):
            self._w.note(name)
            return f(*a, **kw)

        return g if callable(f) else f


def multipart(files, together):
    """(together: several files of one field)"""
    out = b""
    for i, f in enumerate(files):
        out += b'--XX\r\nContent-Disposition: form-data; name="f%d"; filename="%s"\r\n' % (0 if together else i, f["name"].encode())
        if f["ctype"]:
            out += b"Content-Type: " + f["ctype"].encode() + b"\r\n"
        out += b"X-Extra: 1\r\n\r\n" + f["content"].encode() + b"\r\n"
    return out + b"--XX--\r\n"


def execute(scn):
    from starlette.datastructures import Headers, UploadFile
    from starlette.formparsers import MultiPartParser
    from starlette.requests import Request

    ev = []
    spool = MultiPartParser.spool_max_size

    with Watch() as w:

        async def main():
            w.loop = threading.get_ident()
            ups = []
            form = [(i, f) for i, f in enumerate(scn["files"]) if f["kind"] == "form"]
            if form:
                MultiPartParser.spool_max_size = form[0][1]["max"] or BIG
                one = scn["style"] > 2
                body = multipart([f for _, f in form], one)
                k = scn["cut"]
                msgs = [{"type": "http.request", "body": body[i : i + k], "more_body": True} for i in range(0, len(body), k)] + [{"type": "http.request", "body": b""}]

                async def receive():
                    return msgs.pop(0)

                data = await Request(asgi.http_scope("POST", headers=[("content-type", "multipart/form-data; boundary=XX")]), receive).form()
                if w.hits:
                    ev.append({"t": "write", "f": form[0][0] + 1, "data": "", "size": "", "onloop": True, "exc": ""})
                    w.hits.clear()
            for i, f in enumerate(scn["files"]):
                if f["kind"] == "form":
                    k = [j for j, _ in form].index(i)
                    ups.append(data.getlist("f0")[k] if one else data[f"f{k}"])
                    continue
                raw = {"spool": lambda: tempfile.SpooledTemporaryFile(max_size=f["max"]), "bytesio": io.BytesIO, "disk": lambda: Disk(w)}[f["kind"]]()
                w.loop = None
                raw.write(f["content"].encode())
                raw.seek(f["pos"])
                w.loop = threading.get_ident()
                kw = {"size": len(f["content"])} if f["sized"] else {}
                if f["name"]:
                    kw["filename"] = f["name"]
                if f["ctype"]:
                    kw["headers"] = Headers({"content-type": f["ctype"]})
                ups.append(UploadFile(raw, **kw))

            async def do(o):
                u = ups[o["f"] - 1]
                e = {**o, "exc": "", "onloop": False}
                loop = w.loop
                try:
                    if o["t"] == "look":
                        e.update(name=u.filename or "", ctype=u.content_type or "", size=str(u.size))
                    elif o["t"] == "write":
                        try:
                            await u.write(o["data"].encode())
                        finally:
                            e["size"] = str(u.size)
                    elif o["t"] == "read":
                        e["got"] = ""
                        e["got"] = (await (u.read() if o["n"] == -1 and scn["style"] % 2 else u.read(o["n"]))).decode("latin-1")
                    elif o["t"] == "seek":
                        await u.seek(o["to"])
                    elif o["t"] == "close":
                        await u.close()
                    else:
                        w.loop = None  # the application's own doing
                        e["got"] = ""
                        if o["t"] == "rawread":
                            e["got"] = u.file.read(o["n"]).decode("latin-1")
                        else:
                            u.file.seek(o["to"])
                except Exception as x:
                    e["exc"] = type(x).__name__
                w.loop = loop
                if w.hits:
                    e["onloop"] = True
                    w.hits.clear()
                ev.append(e)

            if scn["together"]:
                # each file by a task of its own
                async def use(i):
                    for o in scn["ops"]:
                        if o["f"] == i + 1 and not o["t"].startswith("raw"):
                            await do(o)

                async with anyio.create_task_group() as tg:
                    for i in range(len(ups)):
                        tg.start_soon(use, i)
            else:
                for o in scn["ops"]:
                    await do(o)
            w.loop = None
            for u in ups:
                u.file.close()

        try:
            sched.run(main, backend=scn["backend"])
        finally:
            w.loop = None
            MultiPartParser.spool_max_size = spool
    files = [{"content": f["content"], "pos": f["pos"], "sized": f["sized"], "name": f["name"], "ctype": f["ctype"]} for f in scn["files"]]
    return {"cfg": {"zero": "\0", "files": files}, "ev": ev}


TEXT = ["", "a", "bc", "def", "\r\n", "x" * 17, "0123456789" * 5, "y" * 200]


def afile(rng, kind=None, mx=None):
    kind = kind or rng.choice(["spool"] * 4 + ["bytesio", "disk", "form", "form"])
    content = "".join(rng.choice(TEXT) for _ in range(rng.randrange(3)))
    return {"kind": kind, "max": rng.choice([0, 1, 5, 20, 100]) if mx is None else mx, "content": content, "pos": 0 if kind == "form" or rng.random() < 0.5 else rng.randrange(len(content) + 1),
            "sized": kind == "form" or rng.random() < 0.8, "name": rng.choice(["n.txt", "n.txt", "a b.bin", "x"] + ([""] if kind != "form" else [])), "ctype": rng.choice(["", "text/plain", "image/png; a=b"])}  # fmt: skip


def dress(files, ops, rng):
    if sum(f["kind"] == "form" for f in files):
        m = next(f["max"] for f in files if f["kind"] == "form")
        for f in files:
            if f["kind"] == "form":
                f["max"] = m
    return {"files": files, "ops": ops, "style": rng.randrange(6), "cut": rng.choice([1, 3, 7, 64, 10000]), "together": rng.random() < 0.3, "backend": rng.choice(["asyncio", "trio"])}


def from_model(g, rng):
    k = rng.choice([1, 1, 7])  # the same at another scale
    ops = []
    for o in g["ops"]:
        o = dict(o, f=1)
        if o["t"] == "write":
            o["data"] = "".join(c * k for c in o["data"])
        elif o["t"] == "read" and o["n"] > 0:
            o["n"] *= k
        elif o["t"] == "seek":
            o["to"] *= k
        ops.append(o)
    kind = rng.choice(["spool", "spool", "spool", "form", "bytesio", "disk"])
    f = {"kind": kind, "max": g["max"] * k, "content": "", "pos": 0, "sized": True, "name": "n", "ctype": ""}
    return dress([f], ops, rng)


def rnd(rng):
    kind = "form" if rng.random() < 0.25 else None
    files = [afile(rng, kind) for _ in range(rng.choice([1, 1, 2, 3] if not kind else [2, 3]))]
    ops = []
    for _ in range(rng.choice([3, 8, 15])):
        f = rng.randrange(len(files)) + 1
        t = rng.choice(["write"] * 5 + ["read"] * 4 + ["seek"] * 3 + ["look"] + (["rawread", "rawseek"] if rng.random() < 0.3 else []) + (["close"] if rng.random() < 0.15 else []))
        o = {"t": t, "f": f}
        if t == "write":
            o["data"] = rng.choice(TEXT)
        elif t in ("read", "rawread"):
            o["n"] = rng.choice([-1, -1, 0, 1, 3, 20, 1000])
        elif t in ("seek", "rawseek"):
            o["to"] = rng.choice([0, 0, 1, 2, 10, 50, 300])
        ops.append(o)
    return dress(files, ops, rng)


def pick(t, rng, ok):
    ks = [e for e in t["ev"] if ok(e)]
    return rng.choice(ks) if ks else None


def mut_got(t, rng):
    e = pick(t, rng, lambda e: e["t"] == "read" and e["exc"] == "")
    if e:
        e["got"] += "z"
        return t


def mut_size(t, rng):
    e = pick(t, rng, lambda e: e["t"] == "write" and e["size"] != "None" and e["exc"] == "")
    if e:
        e["size"] = str(int(e["size"]) + 1)
        return t


def mut_loop(t, rng):
    e = pick(t, rng, lambda e: e["t"] == "write")
    if e:
        e["onloop"] = True
        return t


def mut_fail(t, rng):
    e = pick(t, rng, lambda e: e["t"] == "seek" and e["exc"] == "")
    if e:
        e["exc"] = "OSError"
        return t


def run(c):
    c.model("MC_Upload", "MC_Upload_big.cfg" if c.thorough else None, min_states=100000)
    gen = c.behaviours("MC_Upload", "MC_Upload_gen.cfg")
    scns = [from_model(g, c.rng) for g in (gen if c.thorough else c.rng.sample(gen, 3000))]
    scns += [rnd(c.rng) for _ in range(c.n(3000, 40000))]
    runs = list(zip(scns, core.run_pool(execute, scns)))
    c.validate("Trace_Upload", runs, mutators=[mut_got, mut_size, mut_loop, mut_fail])
