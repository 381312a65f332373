"""C14: streaming responses with every kind of producer, the client leaving at any point."""

from __future__ import annotations

import anyio

import asgi
import core
import sched


class E(Exception):
    pass


ERRS = {"E": E, "OSError": OSError, "ValueError": ValueError, "ConnectionResetError": ConnectionResetError}


def chunk(i, style):
    k = (i + style) % 5
    if k == 0:
        return f"s{i}\u00e9\u20ac"
    if k == 1:
        return f"b{i}".encode() + b"\xff\x00"
    if k == 2:
        return memoryview(f"m{i}".encode())
    if k == 3:
        return b""
    return "x" * 50 + str(i)


def as_text(c):
    return (c.encode() if isinstance(c, str) else bytes(c)).decode("latin-1")


def execute(scn):
    ev = []
    sync = scn["mode"] in ("sgen", "siter")
    tgate = sched.ThreadGate()
    err = ERRS[scn["err"]]("x")
    todo = list(scn["prod"])
    stop = []

    async def main():
        gate = sched.Gate()
        inbox = sched.Inbox()
        st = {"told": 0, "open": None, "lose": False, "n": 0}
        lost = OSError("lost")

        def outcome():
            """what the producer does next; None at its end"""
            d = todo.pop(0) if todo and not stop else "ended"
            if d == "raised":
                ev.append({"t": "prod", "how": "raised", "err": scn["err"]})
                raise err
            if d == "ended":
                ev.append({"t": "prod", "how": "ended", "err": ""})
                return None
            c = chunk(st["n"], scn["style"])
            st["n"] += 1
            ev.append({"t": "made", "c": as_text(c)})
            return (c,)

        async def advance():
            ev.append({"t": "step"})
            try:
                await gate.wait()
            except anyio.get_cancelled_exc_class():
                ev.append({"t": "prod", "how": "cancelled", "err": ""})
                raise
            return outcome()

        def advance_sync():
            ev.append({"t": "step"})
            tgate.wait()
            return outcome()

        async def agen():
            while (c := await advance()) is not None:
                yield c[0]

        class AIter:
            def __aiter__(self):
                return self

            async def __anext__(self):
                c = await advance()
                if c is None:
                    raise StopAsyncIteration
                return c[0]

        def sgen():
            while (c := advance_sync()) is not None:
                yield c[0]

        class SIter:
            def __iter__(self):
                return self

            def __next__(self):
                c = advance_sync()
                if c is None:
                    raise StopIteration
                return c[0]

        async def bg():
            ev.append({"t": "bg"})

        from starlette.background import BackgroundTask
        from starlette.responses import StreamingResponse

        content = {"agen": agen, "aiter": AIter, "sgen": sgen, "siter": SIter}[scn["mode"]]()
        response = StreamingResponse(content, background=BackgroundTask(bg) if scn["bg"] else None)

        async def send(m):
            st["told"] += 1
            n = st["told"]
            hold = n in scn["holds"]
            if m["type"] == "http.response.start":
                k, c = "start", ""
            else:
                k, c = "chunk" if m.get("more_body", False) else "final", as_text(m.get("body", b""))
            ev.append({"t": "told", "k": k, "c": c, "hold": hold})
            if hold:
                st["open"] = anyio.Event()
                st["lose"] = False
                try:
                    await st["open"].wait()
                finally:
                    st["open"] = None
                if st["lose"]:
                    ev.append({"t": "lost"})
                    raise lost
                ev.append({"t": "release"})
            elif n == scn["lose"]:
                ev.append({"t": "lost"})
                raise lost
            elif scn["yield"]:
                await anyio.lowlevel.checkpoint()

        extra = {} if scn["spec"] is None else {"asgi": {"version": "3.0", "spec_version": scn["spec"]}}
        scope = asgi.http_scope(**extra)
        if scn["spec"] is None:
            scope["asgi"] = {"version": "3.0"}
            if scn["style"] % 2:
                del scope["asgi"]

        async def call():
            exc = None
            try:
                await response(scope, inbox.get, send)
            except Exception as e:
                exc = e
            ev.append({"t": "ret", "exc": type(exc).__name__ if exc else "",
                       "same": exc is err or exc is lost if exc and type(exc).__name__ != "ClientDisconnect" else True})  # fmt: skip

        async def quiet():
            await sched.settle_threads(tgate) if sync else await sched.settle()
            ev.append({"t": "quiet", "stuck": bool(tgate.stuck())})

        async with anyio.create_task_group() as tg:
            acts = list(scn["acts"])
            if acts and acts[0] == "leave-first":
                acts.pop(0)
                ev.append({"t": "gone"})
                inbox.push({"type": "http.disconnect"})
            tg.start_soon(call)
            if not scn["eager"]:
                await quiet()
            for i, a in enumerate(acts):
                if a == "leave":
                    if scn["old"]:
                        ev.append({"t": "gone"})
                        inbox.push({"type": "http.disconnect"})
                elif a == "noise":
                    # the rest of the request's body, which nobody reads
                    st["noise"] = st.get("noise", acts.count("noise")) - 1
                    m = {"type": "http.request", "body": b"unread" * ((i + scn["style"]) % 3), "more_body": st["noise"] > 0}
                    if not st["noise"] and scn["style"] % 2:
                        del m["more_body"]
                    inbox.push(m)
                elif a == "go":
                    (tgate if sync else gate).release()
                elif st["open"] is not None:
                    st["lose"] = a == "lose"
                    st["open"].set()
                if scn["eager"] and (i + scn["style"]) % 3:
                    continue
                await quiet()
            for _ in range(len(todo) + 2):
                if st["open"] is not None:
                    st["open"].set()
                (tgate if sync else gate).release()
                await quiet()
            done = list(ev)
            stop.append(1)
            tgate.throw_open()
            tg.cancel_scope.cancel()
        return done

    try:
        return {"cfg": {"old": scn["old"], "bg": scn["bg"]}, "ev": sched.run(main, backend=scn["backend"], seed=scn["seed"])}
    finally:
        stop.append(1)
        tgate.throw_open()


OLD = [None, None, "2.0", "2.1", "2.2", "2.3"]
NEW = ["2.4", "2.4", "2.5", "3.0", "2.10"]


def dress(scn, rng):
    scn.update(
        spec=rng.choice(OLD if scn["old"] else NEW), backend=rng.choice(["asyncio", "asyncio", "trio"]),
        seed=rng.randrange(1000), style=rng.randrange(10), mode=rng.choice(["agen", "agen", "aiter", "sgen", "siter"]),
        err=rng.choice(list(ERRS)),
    )  # fmt: skip
    scn["yield"] = rng.random() < 0.4
    return scn


def from_model(b, rng):
    holds, prod, acts, n = [], [], [], 0
    for a in b["acts"]:
        k = a["a"]
        if k == "send":
            n += 1
            if a["hold"]:
                holds.append(n)
        elif k in ("make", "ended", "raised"):
            prod.append(k)
            acts.append("go")
        else:
            acts.append(k)
    return {"old": b["old"], "bg": b["bg"], "holds": holds, "prod": prod, "acts": acts, "lose": 0, "eager": False}


def rnd(rng):
    old = rng.random() < 0.6
    n = rng.randrange(6)
    prod = ["make"] * n + [rng.choice(["ended", "ended", "raised"])]
    holds = sorted(rng.sample(range(1, n + 4), rng.choice([0, 0, 1, 2, 3]) if n else rng.randrange(3)))
    pool = ["go"] * (len(prod) + rng.randrange(2)) + ["release"] * len(holds)
    if holds and rng.random() < 0.3:
        pool.append("lose")
    if old and rng.random() < 0.6:
        pool.append("leave")
    pool += ["noise"] * rng.choice([0, 0, 1, 2, 3])
    rng.shuffle(pool)
    if old and rng.random() < 0.05:
        pool.insert(0, "leave-first")
    return {"old": old, "bg": rng.random() < 0.5, "holds": holds, "prod": prod, "acts": pool,
            "lose": rng.randrange(1, n + 3) if rng.random() < 0.25 else 0, "eager": rng.random() < 0.4}  # fmt: skip


def mut_drop(t, rng):
    if not any(e["t"] == "told" and e["k"] == "final" for e in t["ev"]):
        return None
    for k, e in enumerate(t["ev"]):
        if e["t"] == "told" and e["k"] == "chunk":
            del t["ev"][k]
            return t


def mut_swallow(t, rng):
    if t["ev"][-1]["t"] and any(e["t"] == "ret" and e["exc"] for e in t["ev"]):
        for e in t["ev"]:
            if e["t"] == "ret":
                e["exc"] = ""
        return t


def mut_step_after_lost(t, rng):
    for k, e in enumerate(t["ev"]):
        if e["t"] == "lost":
            t["ev"].insert(k + 1, {"t": "step"})
            return t


def mut_final_after_raise(t, rng):
    for k, e in enumerate(t["ev"]):
        if e["t"] == "prod" and e["how"] == "raised":
            t["ev"].insert(k + 1, {"t": "told", "k": "final", "c": "", "hold": False})
            return t


def mut_no_return(t, rng):
    for k, e in enumerate(t["ev"]):
        if e["t"] == "ret":
            del t["ev"][k]
            return t


def mut_bg_early(t, rng):
    for k, e in enumerate(t["ev"]):
        if e["t"] == "bg":
            del t["ev"][k]
            t["ev"].insert(0, e)
            return t


def run(c):
    c.model("MC_Stream", min_states=300)
    scns = [from_model(b, c.rng) for b in c.behaviours("MC_Stream", "MC_Stream_gen.cfg")]
    scns = [dress(dict(s), c.rng) for s in scns for _ in range(c.n(8, 60))]
    scns += [dress(rnd(c.rng), c.rng) for _ in range(c.n(8000, 80000))]
    runs = list(zip(scns, core.run_pool(execute, scns)))
    c.validate("Trace_Stream", runs,
               mutators=[mut_drop, mut_swallow, mut_step_after_lost, mut_final_after_raise, mut_no_return, mut_bg_early])  # fmt: skip
