"""Driving ASGI applications directly and recording what they tell the server."""

from __future__ import annotations

import anyio


def http_scope(method="GET", path="/", query=b"", headers=(), root_path="", scheme="http", server=("testserver", 80), **kw):
    s = {
        "type": "http", "asgi": {"version": "3.0", "spec_version": "2.3"}, "http_version": "1.1",
        "method": method, "path": path, "raw_path": path.encode("utf-8", "surrogatepass"),
        "query_string": query if isinstance(query, bytes) else query.encode(),
        "headers": [(k if isinstance(k, bytes) else k.encode("latin-1"), v if isinstance(v, bytes) else v.encode("latin-1")) for k, v in headers],
        "root_path": root_path, "scheme": scheme, "client": ("testclient", 50000), "server": server,
    }  # fmt: skip
    s.update(kw)
    return s


def ws_scope(path="/", query=b"", headers=(), root_path="", scheme="ws", server=("testserver", 80), **kw):
    s = http_scope("GET", path, query, headers, root_path, scheme, server)
    s["type"] = "websocket"
    del s["method"]
    s["subprotocols"] = []
    s["extensions"] = {}
    s.update(kw)
    return s


async def call(app, scope, messages=None):
    """Run app on scripted messages (then a disconnect); -> (sent messages, exception or None)."""
    typ = scope["type"]
    if messages is None:
        messages = (
            [{"type": "http.request", "body": b"", "more_body": False}] if typ == "http" else [{"type": "websocket.connect"}]
        )
    inbox = list(messages)
    sent = []
    done = anyio.Event()

    async def receive():
        if inbox:
            return inbox.pop(0)
        if typ == "http":
            # the client waits for the whole response before it leaves
            await done.wait()
            return {"type": "http.disconnect"}
        return {"type": "websocket.disconnect", "code": 1005, "reason": ""}

    async def send(m):
        sent.append(m)
        if m["type"] == "http.response.body" and not m.get("more_body"):
            done.set()

    exc = None
    try:
        await app(scope, receive, send)
    except Exception as e:
        exc = e
    return sent, exc


def hdrs(start):
    return [(k.decode("latin-1"), v.decode("latin-1")) for k, v in start.get("headers", [])]


def header(start, name):
    for k, v in hdrs(start):
        if k.lower() == name:
            return v
    return None


def start_of(sent):
    for m in sent:
        if m["type"] == "http.response.start":
            return m
    return None


def body_of(sent):
    return b"".join(m.get("body", b"") for m in sent if m["type"] == "http.response.body")
