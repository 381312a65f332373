"""C16: range requests on file responses."""

from __future__ import annotations

import os
import tempfile

import asgi
import core
import sched


def execute(scn):
    from starlette.responses import FileResponse

    ev = []
    short = []
    n = scn["n"]
    letters = "abcdefghijklmnopqrstuvwxyz"
    text = "".join(letters[(i * 7 + i // 26 + i // 676) % 26] for i in range(n))
    tmp = tempfile.mkdtemp(prefix="c16-")
    path = os.path.join(tmp, "f.txt")

    async def main():
        def write(t):
            with open(path, "w") as f:
                f.write(t)
            os.utime(path, (1_500_000_000.25, 1_500_000_000.25))

        write(text)
        cls = FileResponse if not scn["chunk"] else type("F", (FileResponse,), {"chunk_size": scn["chunk"]})
        kw = {"status_code": scn["status"]}
        if scn["type"]:
            kw["media_type"] = scn["type"]
        cfg["type"] = scn["type"] or "text/plain; charset=utf-8"
        r = None
        tags = []
        for i, (method, rng, ifr) in enumerate(scn["gets"]):
            if i in scn["rewrite"] and i:
                new = text[i:] + text[: n // 2]
                write(new)
                os.utime(path, (1_500_000_000.25 + i, 1_500_000_000.25 + i))
                ev.append({"t": "file", "file": new})
            first, _ = await asgi.call(cls(path, **kw), asgi.http_scope("HEAD"))
            etag, date = asgi.header(first[0], "etag"), asgi.header(first[0], "last-modified")
            headers = []
            tags.append((etag, date))
            if rng is not None:
                headers.append(("range", rng))
            if ifr != "none":
                headers.append(("if-range", {"etag": etag, "date": date, "weak": "W/" + etag, "other": '"x"', "cut": etag[:-1], "cutl": etag[1:], "bare": etag.strip('"'), "empty": "", "list": f'{etag}, "x"',
                                             "list2": f'"x", {etag}', "upper": etag.upper() + "X", "datecut": date[5:], "datecut2": date[:-4], "year": date[12:16], "oldtag": tags[0][0] + ("" if tags[0][0] != etag else "-"),
                                             "olddate": tags[0][1] if tags[0][1] != date else "Thu, 01 Jan 1970 00:00:00 GMT", "late": "Mon, 01 Jan 2035 00:00:00 GMT"}[ifr]))  # fmt: skip
            if r is None or not scn["reuse"]:
                r = cls(path, stat_result=os.stat(path) if scn["stat"] else None, **kw)
            if scn["shrink"]:
                r = cls(path, stat_result=os.stat(path), **kw)
                write(text[: n // 3])
            scope = asgi.http_scope(method, headers=headers)
            limit = [0]

            async def guarded(sc, rc, sd):
                async def send(m):
                    limit[0] += 1
                    if limit[0] > 5000:
                        raise RuntimeError("endless response")
                    await sd(m)

                await r(sc, rc, send)

            sent, exc = await asgi.call(guarded, scope)
            if scn["shrink"]:
                write(text)
                ev.append({"t": "shrunk", "ended": exc is None and not sent[-1].get("more_body", False)})
                continue
            if exc is not None or not sent or not sent[0]["type"].endswith("start"):
                ev.append({"t": "get", "exc": type(exc).__name__, "finals": False, "range": rng, "ifrange": ifr, "head": False,
                           "status": 0, "crange": None, "length": None, "accept": None, "body": ""})  # fmt: skip
                continue
            st = sent[0]
            bodies = sent[1:]
            body = b"".join(bytes(m.get("body", b"")) for m in bodies)
            head = method == "HEAD"
            cr = asgi.header(st, "content-range")
            cl = asgi.header(st, "content-length")
            ev.append({"t": "get", "exc": "", "finals": bool(bodies) and [bool(m.get("more_body")) for m in bodies] == [True] * (len(bodies) - 1) + [False],
                       "range": rng, "ifrange": ifr, "head": head, "status": st["status"], "crange": cr, "length": cl,
                       "accept": asgi.header(st, "accept-ranges"), "body": body.decode("latin-1")})  # fmt: skip
            ev.append({"t": "length", "head": head and st["status"] not in (400, 416), "declared": int(cl) if cl and cl.isdigit() else -1, "sent": len(body),
                       "multi": bool(cr) and cr.startswith("multipart")})  # fmt: skip
            if ev[-1]["multi"] and not head:
                short.append(ev[-1]["declared"] + 1 == ev[-1]["sent"])

    cfg = {"file": text, "type": "", "status": scn["status"]}
    try:
        sched.run(main, backend=scn["backend"])
        # judged last: the known finding about it must not hide anything else
        ev.extend({"t": "short", "is": x} for x in short)
    finally:
        if os.path.exists(path):
            os.unlink(path)
        os.rmdir(tmp)
    return {"cfg": cfg, "ev": ev}


IFR = ["none"] * 16 + ["etag", "date", "weak", "other", "cut", "late", "cutl", "bare", "empty", "list", "list2", "upper", "datecut", "datecut2", "year", "oldtag", "olddate", "etag", "date"]


def dress(s, rng):
    s.update(chunk=rng.choice([0, 1, 2, 3, 5, 7, 16]), stat=rng.random() < 0.3, backend=rng.choice(["asyncio", "asyncio", "trio"]),
             type=rng.choice([None, None, "a/b", "text/html; charset=latin-1", "application/x-long-type-name"]),
             status=rng.choice([200] * 12 + [404, 201]), shrink=False, reuse=rng.random() < 0.4, rewrite=[])  # fmt: skip
    if rng.random() < 0.3 and not (s["reuse"] and s["stat"]):
        s["rewrite"] = [1, 3]
    return s


ODD = ["bytes", "bytes=", "bytes=-", "bytes=a-b", "bytes=abc", "items=0-1", "bytes: 0-3", "=0-1", " Bytes = 1-2", "BYTES=0-0", "bytes=1-2-3", "bytes=1--2",
       "bytes=0x1-2", "bytes=1-2x", "bytes=,1-2", "bytes=1-2,,3-4", "bytes=1-2,a", "bytes=1 - 2", "bytes= 1-2 , 4-5", "bytes=1-2;q=1", "", "bytes==1-2", "bytes=-,-",
       "bytes=--", "bytes=0-" + "9" * 4500, "bytes=" + "9" * 5000 + "-", "bytes=-" + "1" * 4400, "bytes=1.5-2", "bytes=\xb2-\xb3", "bytes=+1-2", "bytes=*/3", "bytes=0-1,1-0"]  # fmt: skip


def spec(rng, n):
    def num():
        return rng.choice([0, 1, n - 1, n, n + 1, 10**6, 10**12, n // 2, n // 3]) if rng.random() < 0.3 else rng.randrange(max(n, 1))

    k = rng.random()
    a, b = max(num(), 0), max(num(), 0)
    if k < 0.6:
        if a > b and rng.random() < 0.9:
            a, b = b, a
        t = f"{a}-{b}"
    elif k < 0.8:
        t = f"{a}-"
    else:
        t = f"-{rng.choice([0, 1, 2, n - 1, n, n + 1, 99999]) if rng.random() < 0.4 else b}".replace("--", "-")
    if rng.random() < 0.05:
        t = t.replace(str(a), "00" + str(a), 1)
    return t


def rnd(rng):
    n = rng.choice([0, 1, 2, 5, 10, 11, 30, 99, 100, 101, 150])
    gets = []
    for _ in range(rng.choice([1, 2, 4])):
        if rng.random() < 0.15:
            r = rng.choice(ODD)
        elif rng.random() < 0.05:
            r = None
        else:
            m = rng.choice([1, 1, 2, 2, 3, 4, 6])
            inside = [spec(rng, n) for _ in range(m)]
            r = "bytes=" + rng.choice([",", ", ", " , "]).join(inside)
        gets.append((rng.choice(["GET", "GET", "GET", "HEAD"]), r, rng.choice(IFR)))
    return {"n": n, "gets": gets}


def mut_label(t, rng):
    for e in t["ev"]:
        if e["t"] == "get" and e["status"] == 206 and not e["head"] and e["crange"].startswith("bytes"):
            a, b = e["crange"].split("/")
            e["crange"] = a[:-1] + str((int(a[-1]) + 1) % 10) + "/" + b
            return t


def mut_bytes(t, rng):
    for e in t["ev"]:
        if e["t"] == "get" and e["status"] == 206 and not e["head"] and e["body"]:
            e["body"] = e["body"].replace("a", "b", 1) if "a" in e["body"][-5:] else e["body"] + "q"
            return t


def mut_len(t, rng):
    for e in t["ev"]:
        if e["t"] == "length" and not e["head"] and not e["multi"]:
            e["declared"] -= 1
            return t


def mut_status(t, rng):
    for e in t["ev"]:
        if e["t"] == "get" and e["status"] in (400, 416) and e["range"] in ("bytes=", "items=0-1"):
            e["status"] = 200
            return t


def run(c):
    c.model("MC_FileRange", min_states=40000)
    gen = c.behaviours("MC_FileRange", "MC_FileRange_gen.cfg")
    cap = c.n(6000, 16275)
    if len(gen) > cap:
        gen = c.rng.sample(gen, cap)
    per = 4
    scns = [dress({"n": 3, "gets": [("GET", b["range"], "none") for b in gen[i : i + per]]}, c.rng) for i in range(0, len(gen), per)]
    scns += [dress(rnd(c.rng), c.rng) for _ in range(c.n(6000, 60000))]
    scns += [dress({"n": 40, "gets": [("GET", r, f) for r in (None, "bytes=1-3", "bytes=2-5,9-12")]}, c.rng) for f in sorted(set(IFR)) for _ in range(3)]
    scns += [dress({"n": 40, "gets": [("GET", r, "none")]}, c.rng) for r in ODD for _ in range(2)]
    shrunk = [dress({"n": 60, "gets": [("GET", r, "none")]}, c.rng) for r in ("bytes=30-40,50-55", "bytes=10-30", "bytes=0-1,5-50", "bytes=50-", None)]
    for s in shrunk:
        s.update(shrink=True, status=200)
    scns += shrunk
    runs = list(zip(scns, core.run_pool(execute, scns)))
    c.validate("Trace_FileRange", runs, mutators=[mut_label, mut_bytes, mut_len, mut_status])
