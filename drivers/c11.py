"""C11: every order of reading a request body, against RequestBody.tla."""

from __future__ import annotations

import json
from urllib.parse import parse_qsl, urlencode

import anyio

import asgi
import core
import sched

BOUND = "bnd7"


def canon_form(items):
    return ";".join(f"{k}={v}" for k, v in items)


def whole_of(acts):
    out = b""
    for a in acts:
        if a["a"] == "push" and a["m"]["ty"] == "http.request":
            out += a["m"]["body"].encode("latin-1")
            if not a["m"]["more"]:
                break
    return out


def execute(scn):
    from starlette.requests import ClientDisconnect, Request

    ctype = {"urlencoded": "application/x-www-form-urlencoded", "multipart": f"multipart/form-data; boundary={BOUND}", "none": "text/plain"}[scn["ctype"]]
    body = whole_of(scn["acts"])
    try:
        js = json.dumps(json.loads(body))
    except ValueError:
        js = "ERR"
    if scn["ctype"] == "urlencoded":
        form = canon_form(parse_qsl(body.decode("latin-1"), keep_blank_values=True, encoding="latin-1"))
    else:
        form = scn.get("form", "")
    cfg = {"ctype": scn["ctype"], "json": js, "form": form}
    ev = []

    async def main():
        q = []
        cond = anyio.Event()

        async def receive():
            nonlocal cond
            while not q:
                await cond.wait()
            if q[0]["type"] == "http.disconnect":
                return dict(q[0])
            return q.pop(0)

        def push(m):
            nonlocal cond
            real = {"type": m["ty"]}
            if m["ty"] == "http.request":
                if m["body"] or not scn.get("sparse"):
                    real["body"] = m["body"].encode("latin-1")
                if m["more"] or not scn.get("sparse"):
                    real["more_body"] = m["more"]
            q.append(real)
            cond.set()
            cond = anyio.Event()

        hd = [("content-type", ctype)] if scn["ctype"] != "none" or scn.get("plain") else []
        req = Request(asgi.http_scope("POST", headers=hd), receive)
        state = {"on": False, "cs": None}

        async def call(e):
            op = e["op"]
            try:
                with anyio.CancelScope() as cs:
                    state["cs"] = cs
                    r = ["cancelled", []]
                    if op == "body":
                        r = ["val", [(await req.body()).decode("latin-1")]]
                    elif op == "json":
                        r = ["val", [json.dumps(await req.json())]]
                    elif op == "form":
                        if scn.get("cm"):
                            async with req.form() as f:
                                pass
                        else:
                            f = await req.form()
                        items = []
                        for k, v in f.multi_items():
                            if not isinstance(v, str):
                                v = f"<{v.filename}:{v.size}>"
                            items.append((k, v))
                        r = ["val", [canon_form(items)]]
                    elif op == "stream":
                        r = ["chunks", [c.decode("latin-1") async for c in req.stream() if c]]
                    elif op == "take":
                        got = []
                        g = req.stream()
                        try:
                            while len(got) < e["k"]:
                                try:
                                    c = await g.__anext__()
                                except StopAsyncIteration:
                                    break
                                if c:
                                    got.append(c.decode("latin-1"))
                        finally:
                            await g.aclose()
                        r = ["chunks", got]
                    else:
                        r = ["disc", ["T" if await req.is_disconnected() else "F"]]
                        if r[1][0] not in "TF":
                            raise AssertionError
            except (ClientDisconnect, RuntimeError, ValueError) as exc:
                n = type(exc).__name__
                r = ["err", [n]]
            state["on"] = False
            ev.append({"t": "ret", "r": r})

        async with anyio.create_task_group() as tg:
            for a in scn["acts"]:
                if a["a"] == "op":
                    if state["on"]:
                        continue
                    ev.append({"t": "op", "op": a["op"], "k": a["k"]})
                    state["on"] = True
                    tg.start_soon(call, a)
                elif a["a"] == "push":
                    ev.append({"t": "push", "m": a["m"]})
                    push(a["m"])
                else:
                    if not state["on"]:
                        continue
                    ev.append({"t": "cancel"})
                    state["cs"].cancel()
                await sched.settle()
                ev.append({"t": "quiet", "waiting": state["on"]})
            done = list(ev)
            tg.cancel_scope.cancel()
        return done

    return {"cfg": cfg, "ev": sched.run(main, backend=scn.get("backend", "asyncio"))}


def cut(rng, data, maxn=6):
    n = rng.randrange(1, maxn)
    pos = sorted(rng.randrange(len(data) + 1) for _ in range(n - 1))
    parts = [data[a:b] for a, b in zip([0] + pos, pos + [len(data)])]
    if rng.random() < 0.3:
        parts.append("")
    return parts


def rnd(rng):
    ctype = rng.choice(["urlencoded", "multipart", "none"])
    form = ""
    if ctype == "multipart":
        items = [(rng.choice("abc"), rng.choice(["", "v", "x\r\ny", "--" + BOUND[:3], "1" * 30])) for _ in range(rng.randrange(3))]
        body = ""
        shown = []
        for k, v in items:
            f = rng.random() < 0.3
            fn = '; filename="f.t"' if f else ""
            body += f'--{BOUND}\r\nContent-Disposition: form-data; name="{k}"{fn}\r\n\r\n{v}\r\n'
            shown.append((k, f"<f.t:{len(v)}>" if f else v))
        body += f"--{BOUND}--\r\n"
        form = canon_form(shown)
    elif ctype == "urlencoded":
        body = urlencode([(rng.choice("abc"), rng.choice(["", "v", "a b", "&=", "%"])) for _ in range(rng.randrange(4))])
    else:
        body = rng.choice(["", "null", '{"a": [1, 2]}', "[1,2", "0", '"\\u00e9"', "x" * 50])
    parts = cut(rng, body)
    pushes = [{"a": "push", "m": {"ty": "http.request", "body": p, "more": i < len(parts) - 1}} for i, p in enumerate(parts)]
    d = {"a": "push", "m": {"ty": "http.disconnect", "body": "", "more": False}}
    r = rng.random()
    if r < 0.3:
        pushes = pushes[: rng.randrange(len(pushes))] + [d]
    elif r < 0.6:
        pushes.append(d)
    ops = []
    for _ in range(rng.randrange(1, 7)):
        op = rng.choice(["body", "json", "form", "stream", "take", "disc", "disc"])
        ops.append({"a": "op", "op": op, "k": rng.choice([1, 1, 2, 3]) if op == "take" else 0})
        if rng.random() < 0.1:
            ops.append({"a": "cancel"})
    acts = []
    early = rng.random() < 0.4
    while pushes or ops:
        if pushes and (not ops or early or rng.random() < 0.6):
            acts.append(pushes.pop(0))
        else:
            acts.append(ops.pop(0))
    return {"ctype": ctype, "form": form, "acts": acts, "backend": rng.choice(["asyncio", "asyncio", "trio"]),
            "sparse": rng.random() < 0.5, "plain": rng.random() < 0.5, "cm": rng.random() < 0.2}  # fmt: skip


def mut_val(t, rng):
    for e in t["ev"]:
        if e["t"] == "ret" and e["r"][0] == "val" and len(e["r"][1][0]) > 1:
            e["r"][1][0] = e["r"][1][0][:-1]
            return t


def mut_err(t, rng):
    for e in t["ev"]:
        if e["t"] == "ret" and e["r"][0] == "err":
            e["r"] = ["val", [""]]
            return t


def mut_poll(t, rng):
    if any(e["t"] == "push" and e["m"]["ty"] == "http.disconnect" for e in t["ev"]):
        return None
    for e in t["ev"]:
        if e["t"] == "ret" and e["r"][0] == "disc" and e["r"][1][0] == "F":
            e["r"][1][0] = "T"
            return t


def mut_chunks(t, rng):
    for e in t["ev"]:
        if e["t"] == "ret" and e["r"][0] == "chunks" and len(e["r"][1]) > 1:
            e["r"][1].reverse()
            return t


def run(c):
    scns = c.behaviours("MC_RequestBody", "MC_RequestBody.cfg" if c.thorough else "MC_RequestBody_quick.cfg")
    cap = c.n(9000, 60000)
    if len(scns) > cap:
        scns = c.rng.sample(scns, cap)
    for i, s in enumerate(scns):
        s["backend"] = "trio" if i % 3 == 0 else "asyncio"
        s["sparse"] = i % 2 == 0
    scns += [rnd(c.rng) for _ in range(c.n(8000, 60000))]
    runs = list(zip(scns, core.run_pool(execute, scns)))
    c.validate("Trace_RequestBody", runs, mutators=[mut_val, mut_err, mut_poll, mut_chunks])
