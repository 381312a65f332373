"""C10: sessions of class-based WebSocket endpoints."""

from __future__ import annotations

import json

import anyio

import asgi
import core
import sched


def message(rng, enc):
    """A client message in ASGI form: one of text and bytes, the other absent or None."""
    texts = ["1", "", "a", '"é"', '{"b": [1, 2.5, null], "a": {"x": true}}', "{", "[1,", "nul", '{"a": 1, "a": 2}', "0", "null", "[]", '""', "\ufeff1", "1" * 5000, "tr\u0000"]
    raws = [b"2", b"", b"{", b'{"k": "\xc3\xa9"}', b"\xff", b"\x00\x01", b'"\xe9"', b"null", b"\xef\xbb\xbf1", b" [3] "]
    text, data = None, None
    want_text = rng.random() < {"text": 0.85, "bytes": 0.15}.get(enc, 0.5)
    if want_text:
        text = rng.choice(texts)
        if enc == "json" and rng.random() < 0.6:
            text = rng.choice(texts[3:5] + texts[8:13])
    else:
        data = rng.choice(raws)
        if enc == "json" and rng.random() < 0.6:
            data = rng.choice([b"2", b'{"k": "\xc3\xa9"}', b" [3] "])
    return {"text": text, "data": data.decode("latin-1") if data is not None else None, "other": rng.random() < 0.4}


def execute(scn):
    from starlette.applications import Starlette
    from starlette.endpoints import WebSocketEndpoint
    from starlette.routing import Mount, WebSocketRoute

    ev = []
    enc, plain = scn["enc"], scn["plain"]
    dumped = {}

    def canon_json(v):
        return json.dumps(v, sort_keys=True)

    def as_event(m):
        r = {"type": m["type"], "tk": m.get("text") is not None, "text": m.get("text") or "", "bk": m.get("bytes") is not None,
             "bytes": (m.get("bytes") or b"").decode("latin-1"), "json": "!", "code": m.get("code") or 0}  # fmt: skip
        if r["tk"] or r["bk"]:
            try:
                r["json"] = canon_json(json.loads(m["text"] if r["tk"] else m["bytes"].decode("utf-8")))
            except (ValueError, RecursionError):
                pass
        return r

    class Boom(Exception):
        pass

    msgs = [a["m"] for a in scn["hist"] if a["a"] == "msg"]
    cancel = any(a["a"] == "cancel" for a in scn["hist"])
    raised = {}

    async def main():
        acts = [a for a in scn["hist"]]

        # what each hook does: the acts up to its end or raise, in order of the history
        def script():
            out = []
            while acts:
                a = acts.pop(0)
                if a["a"] in ("msg", "cancel"):
                    continue
                out.append(a)
                if a["a"] in ("end", "raise"):
                    break
            return out

        gone = anyio.Event()
        box = [{"type": "websocket.connect"}]
        for m in msgs:
            if m["type"] == "websocket.disconnect":
                d = {"type": m["type"]}
                if m["code"]:
                    d["code"] = m["code"]
                elif m["other"] % 2:
                    d["code"] = None
                if m["other"] % 3 == 0:
                    d["reason"] = "bye"
                box.append(d)
            else:
                d = {"type": "websocket.receive"}
                if m["text"] is not None:
                    d["text"] = m["text"]
                    if m["other"]:
                        d["bytes"] = None
                else:
                    d["bytes"] = m["data"].encode("latin-1")
                    if m["other"]:
                        d["text"] = None
                box.append(d)
        waiting = anyio.Event()

        async def receive():
            if scn["slow"]:
                await anyio.sleep(0)
            if not box:
                waiting.set()
                if cancel:
                    await anyio.sleep_forever()
                # more was asked for than the history has: the client goes away
                box.append({"type": "websocket.disconnect", "code": 1006})
            m = box.pop(0)
            ev.append({"t": "deliver", "m": as_event(m)})
            return m

        async def send(m):
            ev.append({"t": "sent", "type": m["type"], "code": m.get("code", 0) or 0})
            if scn["slow"]:
                await anyio.sleep(0)

        async def play(ws, h):
            for a in script():
                if scn["slow"] and not (cancel and h == "disconnect"):
                    await anyio.sleep(0)
                if a["a"] == "accept":
                    await ws.accept()
                elif a["a"] == "close":
                    await ws.close()
                elif a["a"] == "send":
                    await ws.send_text("t")
                elif a["a"] == "raise":
                    x = (OSError if a.get("os") else Boom)("x" + h)
                    raised[id(x)] = (x, "x" + h)
                    ev.append({"t": "hookraise", "h": h, "x": "x" + h})
                    raise x
            ev.append({"t": "hookend", "h": h})

        class Endpoint(WebSocketEndpoint):
            encoding = None if enc == "none" else enc

            async def on_receive(self, websocket, data):
                k = "json" if enc == "json" else "str" if isinstance(data, str) else "bytes" if isinstance(data, bytes) else type(data).__name__
                v = canon_json(data) if k == "json" else data.decode("latin-1") if k == "bytes" else str(data)
                ev.append({"t": "hook", "h": "receive", "k": k, "v": v, "code": 0})
                await play(websocket, "receive")

            async def on_disconnect(self, websocket, close_code):
                ev.append({"t": "hook", "h": "disconnect", "k": "", "v": "", "code": close_code})
                await play(websocket, "disconnect")

        async def on_connect(self, websocket):
            ev.append({"t": "hook", "h": "connect", "k": "", "v": "", "code": 0})
            if acts and acts[0]["a"] == "accept" and scn["super"]:
                acts.pop(0)
                await WebSocketEndpoint.on_connect(self, websocket)
            await play(websocket, "connect")

        if not plain:
            Endpoint.on_connect = on_connect
        app = Endpoint
        path = "/"
        if scn["where"] == "app":
            app = Starlette(routes=[WebSocketRoute("/", Endpoint)])
        elif scn["where"] == "mount":
            app = Starlette(routes=[Mount("/m", routes=[WebSocketRoute("/x", Endpoint)])])
            path = "/m/x"
        x = None
        async with anyio.create_task_group() as tg:
            async def go():
                nonlocal x
                try:
                    await app(asgi.ws_scope(path), receive, send)
                except Exception as e:
                    x = e
                except BaseException:
                    x = "cancelled"
                    raise
                finally:
                    gone.set()
                    waiting.set()

            if cancel:
                async def killer():
                    await waiting.wait()
                    if gone.is_set():
                        return
                    ev.append({"t": "cancel"})
                    tg.cancel_scope.cancel()

                tg.start_soon(killer)
            await go()
        ev.append({"t": "end", "x": "" if x is None else x if isinstance(x, str) else raised.get(id(x), (0, "other " + type(x).__name__))[1]})

    async def outer():
        await main()

    sched.run(outer, backend=scn["backend"])
    return {"cfg": {"enc": enc, "plain": plain}, "ev": ev}


def from_model(b, rng):
    hist = []
    for a in b["hist"]:
        if a["a"] == "msg":
            m = a["m"]
            if m["type"] == "websocket.receive":
                a = {"a": "msg", "m": {"type": m["type"], "text": m["text"] if m["tk"] else None, "data": m["bytes"] if m["bk"] else None, "other": rng.random() < 0.5, "code": 0}}
            else:
                a = {"a": "msg", "m": {"type": m["type"], "code": m["code"], "other": rng.randrange(6)}}
        hist.append(a)
    return {"enc": b["cfg"]["enc"], "plain": b["cfg"]["plain"], "hist": hist, "slow": rng.random() < 0.5, "super": rng.random() < 0.5,
            "where": rng.choice(["bare", "app", "mount"]), "backend": rng.choice(["asyncio", "asyncio", "trio"])}  # fmt: skip


def rnd(rng):
    enc = rng.choice(["text", "bytes", "json", "none"])
    plain = rng.random() < 0.3
    hist = []
    alive = True
    if not plain:
        n = rng.random()
        if n < 0.8:
            hist.append({"a": "accept"})
            if n < 0.2:
                hist.append({"a": "send"})
            if n < 0.05:
                hist.append({"a": "close"})
                alive = False
        elif n < 0.88:
            hist.append({"a": "close"})
            alive = False
        else:
            alive = False
        if rng.random() < 0.08:
            hist.append({"a": "raise", "os": rng.random() < 0.3})
            return finish(enc, plain, hist, rng)
        hist.append({"a": "end"})
    if alive:
        for _ in range(rng.randrange(12)):
            m = message(rng, enc)
            hist.append({"a": "msg", "m": {"type": "websocket.receive", "code": 0, **m}})
            n = rng.random()
            ok = fits(enc, m)
            if not ok:
                if n < 0.8:
                    hist.append({"a": "end"})
                else:
                    hist.append({"a": "raise"})
                return finish(enc, plain, hist, rng)
            if n < 0.3 and alive:
                hist.append({"a": "send"})
            elif n < 0.36 and alive:
                hist.append({"a": "close"})
                alive = False
            if rng.random() < 0.06:
                hist.append({"a": "raise", "os": rng.random() < 0.3})
                hist.append({"a": "end"})
                return finish(enc, plain, hist, rng)
            hist.append({"a": "end"})
    if rng.random() < 0.12:
        hist.append({"a": "cancel"})
    else:
        hist.append({"a": "msg", "m": {"type": "websocket.disconnect", "code": rng.choice([0, 0, 1000, 1001, 1005, 1006, 4000]), "other": rng.randrange(6)}})
    hist.append({"a": rng.choice(["end", "end", "end", "raise"])})
    return finish(enc, plain, hist, rng)


def fits(enc, m):
    if enc == "text":
        return m["text"] is not None
    if enc == "bytes":
        return m["data"] is not None
    if enc == "json":
        try:
            json.loads(m["text"] if m["text"] is not None else m["data"].encode("latin-1").decode("utf-8"))
        except (ValueError, RecursionError):
            return False
    return True


def finish(enc, plain, hist, rng):
    return {"enc": enc, "plain": plain, "hist": hist, "slow": rng.random() < 0.5, "super": rng.random() < 0.5,
            "where": rng.choice(["bare", "app", "mount"]), "backend": rng.choice(["asyncio", "asyncio", "asyncio", "trio"])}  # fmt: skip


def mut_code(t, rng):
    for e in t["ev"]:
        if e["t"] == "hook" and e["h"] == "disconnect" and not any(x["t"] == "cancel" for x in t["ev"]):
            e["code"] = 1002
            return t


def mut_twice(t, rng):
    for i, e in enumerate(t["ev"]):
        if e["t"] == "hookend" and e["h"] in ("connect", "disconnect"):
            t["ev"].insert(i + 1, {"t": "hook", "h": e["h"], "k": "", "v": "", "code": 1000})
            return t


def mut_lost(t, rng):
    for i, e in enumerate(t["ev"]):
        if e["t"] == "hook" and e["h"] == "receive":
            del t["ev"][i]
            return t


def mut_data(t, rng):
    for i, e in enumerate(t["ev"]):
        if e["t"] == "hook" and e["h"] == "receive":
            e["v"] += "x"
            return t


def mut_1003(t, rng):
    for i, e in enumerate(t["ev"]):
        if e["t"] == "sent" and e["code"] == 1003:
            e["code"] = 1000
            return t


def mut_swallow(t, rng):
    e = t["ev"][-1]
    if e["x"] not in ("", "cancelled"):
        e["x"] = ""
        return t


def run(c):
    c.model("MC_WsEndpoint", min_states=40000)
    scns = [from_model(b, c.rng) for b in c.behaviours("MC_WsEndpoint", "MC_WsEndpoint_gen.cfg")]
    scns += [rnd(c.rng) for _ in range(c.n(3000, 40000))]
    runs = list(zip(scns, core.run_pool(execute, scns)))
    c.validate("Trace_WsEndpoint", runs, mutators=[mut_code, mut_twice, mut_lost, mut_data, mut_1003, mut_swallow])
