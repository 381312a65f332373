"""C09: the WebSocket session.  Scenarios exported by TLC from MC_WebSocket plus random
longer ones are executed on starlette.websockets.WebSocket (asyncio and trio)."""

from __future__ import annotations

import contextvars
import json

import anyio

import core
import sched

ABS = "~"
CUR = contextvars.ContextVar("call")


def b2s(v):
    try:
        return v.decode("utf-8")
    except UnicodeDecodeError:
        return v.decode("latin-1")


def s2b(v):
    return v.encode("latin-1") if "\xff" in v else v.encode("utf-8")


def cm(m):
    """canonical message: absent, None and protocol defaults coincide"""

    def s(v):
        if v is None:
            return ABS
        return b2s(v) if isinstance(v, bytes) else str(v)

    hd = m.get("headers")
    return {
        "ty": m["type"], "text": s(m.get("text")), "bytes": s(m.get("bytes")), "code": s(m.get("code")),
        "reason": m.get("reason") or "", "sub": s(m.get("subprotocol")),
        "hdrs": json.dumps([[s(k), s(v)] for k, v in hd]) if hd else "[]",
        "more": "T" if m.get("more_body") else "F", "status": s(m.get("status")), "body": s(m.get("body", b"")),
    }  # fmt: skip


def real(m):
    """the ASGI message a canonical one stands for"""
    out = {"type": m["ty"]}
    if m["text"] != ABS:
        out["text"] = m["text"]
    if m["bytes"] != ABS:
        out["bytes"] = s2b(m["bytes"])
    if m["code"] != ABS:
        out["code"] = int(m["code"])
    if m["reason"]:
        out["reason"] = m["reason"]
    if m["sub"] != ABS:
        out["subprotocol"] = m["sub"]
    if m["status"] != ABS:
        out["status"] = int(m["status"])
    if m["hdrs"] != "[]":
        out["headers"] = [(k.encode(), v.encode()) for k, v in json.loads(m["hdrs"])]
    if m["ty"] == "websocket.http.response.body":
        out["body"] = s2b(m["body"])
        out["more_body"] = m["more"] == "T"
    return out


def execute(scn):
    from starlette.responses import Response
    from starlette.websockets import WebSocket, WebSocketDisconnect

    ev = []
    inbox = sched.Inbox()
    holds = []

    async def main():
        mode = {"hold": "ok"}

        async def receive():
            i = CUR.get()
            ev.append({"t": "listen", "i": i})
            m = await inbox.get()
            ev.append({"t": "recv", "i": i, "m": m})
            return real(m)

        async def send(message):
            i = CUR.get()
            ev.append({"t": "emit", "i": i, "m": cm(message)})
            ok = True
            if mode["hold"] == "hold":
                g = {"e": anyio.Event(), "ok": True}
                holds.append(g)
                await g["e"].wait()
                ok = g["ok"]
            elif mode["hold"] == "fail":
                ok = False
            ev.append({"t": "ack", "i": i, "ok": ok})
            if not ok:
                raise OSError("connection lost")

        scope = {"type": "websocket", "path": "/", "headers": [],
                 "extensions": {"websocket.http.response": {}} if scn["ext"] else {}}  # fmt: skip
        if not scn["ext"] and len(scn["acts"]) % 2:
            del scope["extensions"]
        ws = WebSocket(scope, receive, send)

        async def call(i, e):
            CUR.set(i)
            op = e["op"]
            try:
                if op == "accept":
                    hd = [(k.encode(), v.encode()) for k, v in json.loads(e["hdrs"])] or None
                    await ws.accept(subprotocol=None if e["sub"] == ABS else e["sub"], headers=hd)
                    r = ["ok", ""]
                elif op == "send_text":
                    await ws.send_text(e["data"])
                    r = ["ok", ""]
                elif op == "send_bytes":
                    await ws.send_bytes(s2b(e["data"]))
                    r = ["ok", ""]
                elif op == "send_json":
                    mode_ = e["mode"]
                    data = json.loads(e["data"])
                    if mode_ == "text":
                        await ws.send_json(data)
                    else:
                        await ws.send_json(data, mode=mode_)
                    r = ["ok", ""]
                elif op == "close":
                    if e["reason"]:
                        await ws.close(int(e["code"]), e["reason"])
                    elif e["code"] == "1000":
                        await ws.close()
                    else:
                        await ws.close(code=int(e["code"]))
                    r = ["ok", ""]
                elif op == "raw":
                    await ws.send(real(e["m"]))
                    r = ["ok", ""]
                elif op == "deny":
                    resp = Response(e["body"], status_code=int(e["status"]))
                    resp.raw_headers = [(k.encode(), v.encode()) for k, v in json.loads(e["hdrs"])]
                    await ws.send_denial_response(resp)
                    r = ["ok", ""]
                elif op == "receive":
                    m = cm(await ws.receive())
                    r = ["msg", "|".join((m["ty"], m["text"], m["bytes"], m["code"], m["reason"]))]
                elif op == "receive_text":
                    r = ["val", await ws.receive_text()]
                elif op == "receive_bytes":
                    r = ["val", b2s(await ws.receive_bytes())]
                elif op == "receive_json":
                    v = await (ws.receive_json() if e["mode"] == "text" else ws.receive_json(mode=e["mode"]))
                    r = ["val", json.dumps(v, separators=(",", ":"), ensure_ascii=False)]
                elif op.startswith("iter_"):
                    acc = ""
                    async for x in getattr(ws, op)():
                        if op == "iter_json":
                            x = json.dumps(x, separators=(",", ":"), ensure_ascii=False)
                        elif op == "iter_bytes":
                            x = b2s(x)
                        acc += x + ";"
                    r = ["items", acc]
                else:
                    raise AssertionError(op)
            except WebSocketDisconnect as exc:
                r = ["disc", f"{exc.code}|{exc.reason}"]
            except Exception as exc:
                r = ["err", type(exc).__name__]
            ev.append({"t": "ret", "i": i, "r": r})

        n = 0
        async with anyio.create_task_group() as tg:
            for act in scn["acts"]:
                mode["hold"] = "ok"
                if act["a"] == "call":
                    n += 1
                    mode["hold"] = act["hold"]
                    ev.append({**act["e"], "t": "op", "i": n})
                    tg.start_soon(call, n, act["e"])
                elif act["a"] == "push":
                    inbox.push(act["m"])
                elif holds:
                    g = holds.pop(0)
                    g["ok"] = act["ok"]
                    g["e"].set()
                await sched.settle()
            ev.append({"t": "end", "cs": ws.client_state.name, "as": ws.application_state.name})
            done = list(ev)
            tg.cancel_scope.cancel()
        return done

    return {"cfg": {"ext": scn["ext"]}, "ev": sched.run(main, backend=scn.get("backend", "asyncio"))}


# ------------------------------------------------------------------ random scenarios

TEXTS = ["", "hi", "é漢", "{}", "x" * 40, "\x00", "1"]
JSONS = ['"x"', "1", "null", "[1,2]", '{"a":"é"}', '{"a":{"b":[true,false]}}', '""', "[]"]


def msg(ty, **kw):
    m = {"ty": ty, "text": ABS, "bytes": ABS, "code": ABS, "reason": "", "sub": ABS, "hdrs": "[]",
         "more": "F", "status": ABS, "body": ""}  # fmt: skip
    m.update(kw)
    return m


def rnd(rng):
    acts = []
    listening = False
    base = {"data": '"x"', "mode": "text", "code": "1000", "reason": "", "sub": ABS, "hdrs": "[]",
            "status": "403", "body": "no", "m": msg("websocket.send")}  # fmt: skip

    def call(op, hold="ok", **kw):
        acts.append({"a": "call", "hold": hold, "e": {"t": "op", "op": op, **base, **kw}})

    def push(m):
        acts.append({"a": "push", "m": m})

    style = rng.random()
    if style < 0.75:
        push(msg("websocket.connect"))
        if style < 0.6:
            call("accept", rng.choice(["ok", "ok", "ok", "hold", "fail"]),
                 sub=rng.choice([ABS, ABS, "chat"]), hdrs=rng.choice(["[]", '[["x-a", "1"], ["x-a", "2"]]']))  # fmt: skip
    for _ in range(rng.randrange(2, 14)):
        k = rng.random()
        hold = rng.choice(["ok", "ok", "ok", "hold", "fail"]) if rng.random() < 0.6 else "ok"
        if k < 0.3:
            # never two listeners at once: a message is already there for each listening call
            op = rng.choice(["receive", "receive_text", "receive_bytes", "receive_json", "receive_json", "iter"])
            if op == "iter":
                op = rng.choice(["iter_text", "iter_bytes", "iter_json"])
                fld = "bytes" if op == "iter_bytes" else "text"
                for _ in range(rng.randrange(3)):
                    push(msg("websocket.receive", **{fld: rng.choice(JSONS)}))
                push(msg("websocket.disconnect", code=str(rng.choice([1000, 1001, 1005, 4321])), reason=rng.choice(["", "r"])))
                call(op)
            else:
                q = rng.random()
                mode = rng.choice(["text", "binary", "binary", "neither"]) if op == "receive_json" else "text"
                if q < 0.15:
                    m = msg("websocket.disconnect", code=str(rng.choice([1000, 1001, 1005, 4321])), reason=rng.choice(["", "r"]))
                elif q < 0.2:
                    m = msg(rng.choice(["websocket.connect", "websocket.bogus"]))
                else:
                    fld = "bytes" if op == "receive_bytes" or mode == "binary" or rng.random() < 0.1 else "text"
                    m = msg("websocket.receive", **{fld: rng.choice(JSONS) if op == "receive_json" else rng.choice(JSONS + [""])})
                push(m)
                call(op, mode=mode)
        elif k < 0.8:
            op = rng.choice(["send_text", "send_text", "send_bytes", "send_json", "close", "raw", "deny", "accept"])
            kw = {}
            if op == "send_text":
                kw["data"] = rng.choice(TEXTS)
            elif op == "send_bytes":
                kw["data"] = rng.choice(["", "\x00\xff", "abc"])
            elif op == "send_json":
                kw["data"] = rng.choice(JSONS)
                kw["mode"] = rng.choice(["text", "text", "binary", "neither"])
            elif op == "close":
                if rng.random() < 0.4:
                    continue
                kw["code"] = str(rng.choice([1000, 1001, 3000, 4999]))
                kw["reason"] = rng.choice(["", "bye"])
            elif op == "raw":
                kw["m"] = rng.choice([
                    msg("websocket.send", text="r"), msg("websocket.send", bytes="r"), msg("websocket.accept"),
                    msg("websocket.accept", sub="s"), msg("websocket.close", code="1000"),
                    msg("websocket.http.response.start", status="401", hdrs='[["a", "b"]]'),
                    msg("websocket.http.response.body", body="x", more="T"),
                    msg("websocket.http.response.body", body="y"), msg("http.response.start", status="200"),
                    msg("websocket.receive", text="q")])  # fmt: skip
            elif op == "deny":
                kw["status"] = rng.choice(["403", "401", "404"])
                kw["body"] = rng.choice(["", "no", "denied"])
                kw["hdrs"] = rng.choice(["[]", '[["x", "y"]]'])
            elif op == "accept":
                continue
            call(op, hold, **kw)
        else:
            acts.append({"a": "release", "ok": rng.random() < 0.75})
    for _ in range(3):
        acts.append({"a": "release", "ok": True})
    return {"ext": rng.random() < 0.5, "acts": acts, "backend": rng.choice(["asyncio", "trio"])}


def ok_random(scn):
    return True


def mut_result(t, rng):
    for e in t["ev"]:
        if e["t"] == "ret" and e["r"][0] in ("ok", "val"):
            e["r"] = ["err", "RuntimeError"]
            return t


def mut_swap_emit(t, rng):
    for e in t["ev"]:
        if e["t"] == "emit":
            e["m"]["ty"] = "websocket.http.response.body"
            return t


def mut_drop_emit(t, rng):
    for k, e in enumerate(t["ev"]):
        if e["t"] == "emit":
            del t["ev"][k]
            return t


def mut_state(t, rng):
    t["ev"][-1]["as"] = "CONNECTING" if t["ev"][-1]["as"] != "CONNECTING" else "CONNECTED"
    return t


def run(c):
    scns = c.behaviours("MC_WebSocket", "MC_WebSocket.cfg" if c.thorough else "MC_WebSocket_quick.cfg")
    cap = c.n(9000, 60000)
    if len(scns) > cap:
        scns = c.rng.sample(scns, cap)
    for i, s in enumerate(scns):
        s["backend"] = "trio" if i % 3 == 0 else "asyncio"
    scns += [rnd(c.rng) for _ in range(c.n(3000, 30000))]
    runs = list(zip(scns, core.run_pool(execute, scns)))
    c.validate("Trace_WebSocket", runs, mutators=[mut_result, mut_swap_emit, mut_drop_emit, mut_state])
    c.extra["scenarios"] = len(scns)
